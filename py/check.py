"""The check of one property: `python3 py/check.py C09`.

Part A (deciding): Verus discharges every obligation of the contracts on the functions extracted
from /repo's working tree on this run.
Part B (replay): a counterexample search against the real code, built from the same working tree.
It turns a failed obligation into a failing input, and it is the bounded stand-in for the
functions Part A does not reach.
"""
import json, os, shutil, sys, threading, time, traceback

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(VERIF, 'py'))
import props, verus, hx

EVID = os.path.join(VERIF, 'evidence')


def known_findings():
    p = os.path.join(VERIF, 'known_findings.json')
    if not os.path.exists(p):
        return []
    with open(p) as f:
        return json.load(f)['findings']


class Ctx:
    def __init__(self):
        self.binary = None
        self.log = ''

    def build(self, feature=None):
        if self.binary is None:
            self.binary, self.log = hx.build(feature)
        return self.binary


def engine(name):
    """-> (search(ctx, seed, secs), replay(ctx, text, strict))"""
    if name.startswith('hx:'):
        n = name[3:]

        def search(ctx, seed, secs):
            if not ctx.binary:
                return {'unavailable': 'the harness does not build against this tree: ' + ctx.log[-800:]}
            rep = hx.search(ctx.binary, n, seed, secs, threads=8)
            if 'crashed' in rep:
                for i in rep['inputs']:
                    m = hx.replay(ctx.binary, n, i)
                    if m:
                        return {'evaluations': 0, 'distinct_nontrivial': 0, 'rule': '', 'samples': [],
                                'violation': {'input': i, 'message': m}}
                return {'unavailable': 'the harness ended abnormally (%s), not reproducible: %s'
                        % (rep['crashed'], rep['log'][-300:])}
            return rep

        def replay(ctx, text, strict=False):
            if not ctx.binary:
                return None
            return hx.replay(ctx.binary, n, text, strict)
        return search, replay
    mod = __import__(name.split(':')[0])
    return (lambda ctx, seed, secs: mod.search(ctx, name, seed, secs),
            lambda ctx, text, strict=False: mod.replay(ctx, name, text, strict))


def write(path, obj):
    os.makedirs(os.path.dirname(path), exist_ok=True)
    tmp = path + '.tmp'
    with open(tmp, 'w') as f:
        if isinstance(obj, str):
            f.write(obj)
        else:
            json.dump(obj, f, indent=1)
    os.replace(tmp, path)


def run(pid):
    t0 = time.time()
    P = props.PROPS[pid]
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    tier = os.environ.get('VERIF_TIER', 'quick')
    thorough = tier == 'thorough'
    ctx = Ctx()
    engines = P.get('engines', [])
    feats = [e[3:] for e in engines if e.startswith('hx:')]
    build_thread = threading.Thread(target=lambda: ctx.build(P.get('feature') or (feats[0] if feats else None)))
    build_thread.start()

    # Part A ------------------------------------------------------------------------------------
    units = {}
    vac = {}

    P = dict(P)
    plain = list(P.get('units', []))
    variants = {}
    if 'variants' in P:
        # further units made from what the current tree generates: {label: (unit, overrides)}
        build_thread.join()
        try:
            variants = P['variants'](ctx)
        except Exception:
            units['variants'] = {'unit': 'variants', 'status': 'UNDECIDED', 'reason': traceback.format_exc()[-800:]}
            plain.append('variants')
    P['units'] = plain + list(variants)

    def do_unit(u):
        if u in units:
            return
        try:
            if u in variants:
                units[u] = verus.check_unit(variants[u][0], thorough, overrides=variants[u][1], label=u)
                return
            units[u] = verus.check_unit(u, thorough)
            if thorough and units[u]['status'] == 'PROVED':
                vac[u] = verus.vacuity(u)
        except Exception:
            units[u] = {'unit': u, 'status': 'UNDECIDED', 'reason': traceback.format_exc()[-800:]}
    ts = [threading.Thread(target=do_unit, args=(u,)) for u in P.get('units', [])]
    for t in ts:
        t.start()
    for t in ts:
        t.join()
    build_thread.join()

    failed = []
    for u in P.get('units', []):
        v = units[u]
        if v['status'] == 'FAILED':
            rel = [e for e in v['errors'] if e['function'] and P.get('relevant', props.always)(u, e)]
            for e in rel:
                failed.append(dict(e, unit=u))

    # Known findings ----------------------------------------------------------------------------
    n_known = 0
    for k in known_findings():
        if k['property'] != pid:
            continue
        try:
            m = engine(k['engine'])[1](ctx, k['input'], True)
        except Exception as e:
            m = None
        if m:
            n_known += 1
            print('KNOWN-FINDING: property=%s %s' % (pid, k['what']))

    # Part B ------------------------------------------------------------------------------------
    violation = None
    reports = {}
    budget = P.get('secs', 20) * (P.get('thorough_factor', 8) if thorough else 1)
    for e in engines:
        s, r = engine(e)
        try:
            rep = s(ctx, seed, budget)
        except Exception:
            rep = {'unavailable': traceback.format_exc()[-800:]}
        reports[e] = rep
        v = rep.get('violation')
        if v:
            # Confirm it by replaying it on its own.
            m = v['message']
            ok = False
            for _ in range(3):
                try:
                    again = r(ctx, v['input'])
                except Exception:
                    again = None
                if again:
                    ok, m = True, again
                    break
            if ok:
                violation = {'engine': e, 'input': v['input'], 'message': m}
                break
            rep['unconfirmed'] = v
            rep['violation'] = None

    # Verdict -----------------------------------------------------------------------------------
    code = 0
    os.makedirs(EVID, exist_ok=True)
    if violation:
        path = os.path.join(EVID, 'replay-%s.json' % pid)
        write(path, {'property': pid, **violation, 'failed_obligations': failed,
                     'replay_cmd': 'python3 py/check.py --replay %s' % path})
        print('failing input (%s):\n%s\n-> %s' % (violation['engine'], violation['input'][:2000], violation['message'][:2000]))
        for e in failed[:6]:
            print('failed obligation: %s in %s' % (e['message'], e['function']))
        print('VIOLATION property=%s replay=%s' % (pid, path))
        code = 1
    elif failed and P.get('confirm'):
        # These contracts imply the property, but it may hold without them: an alarm needs a failing input.
        for e in failed[:6]:
            print('failed obligation (the search found no input for which the property fails): %s in %s' % (e['message'], e['function']))
    elif failed:
        path = os.path.join(EVID, 'replay-%s.json' % pid)
        write(path, {'property': pid, 'failed_obligations': failed,
                     'verifier_cmd': [units[u].get('cmd') for u in units],
                     'note': 'the verifier gives no counterexample and the search found no failing input'})
        for e in failed[:6]:
            print('failed obligation: %s in %s: %s' % (e['message'], e['function'],
                                                       ' | '.join(s['text'][:160] for s in e['spans'][:2])))
        print('VIOLATION property=%s replay=%s no-failing-input-found' % (pid, path))
        code = 1

    # Evidence ----------------------------------------------------------------------------------
    proved = [u for u in P.get('units', []) if units[u]['status'] == 'PROVED']
    obligations = sum(units[u].get('verified', 0) + units[u].get('failed', 0) for u in units)
    discharged = sum(units[u].get('verified', 0) for u in units)
    trust = []
    for u in units:
        for t in units[u].get('trusted', []):
            if t not in trust:
                trust.append(t)
    cov = {
        'obligations': obligations, 'discharged': discharged,
        'obligation_unit': 'one SMT query group of Verus (a function body, a loop body or a lemma)',
        'checker_cmd': '; '.join(units[u].get('cmd', '') for u in units) or 'none',
        'back_end': 'Verus %s with Z3' % next((units[u].get('verus') for u in units if units[u].get('verus')), ''),
        'trusted_base': trust + P.get('trusted', []),
        'solver_ms': sum(units[u].get('smt_ms', 0) or 0 for u in units),
        'units': {u: {k: units[u].get(k) for k in ('status', 'reason', 'verified', 'failed', 'contracted', 'uncontracted',
                                                  'external', 'rewrites', 'wall', 'runs', 'sha', 'path')} for u in units},
        'functions_under_contract': sorted({f for u in units for f in units[u].get('contracted', [])}),
        'function_times_ms': {f['function']: f['ms'] for u in units for f in units[u].get('functions', [])
                              if f.get('ms', 0) and f['ms'] > 50},
        'proved': proved,
        'undecided': {u: units[u].get('reason') for u in units if units[u]['status'] == 'UNDECIDED'},
        'failed_obligations': failed,
        'proved_part': P.get('proved_part', ''),
        'bounded_part': P.get('bounded_part', ''),
        'extraction_rewrites': verus.extract.REWRITES,
        'bounded_search': {e: {k: reports[e].get(k) for k in ('evaluations', 'distinct_nontrivial', 'enumerated', 'complete',
                                                             'rule', 'unavailable', 'unconfirmed')} for e in reports},
        'evaluations': sum(reports[e].get('evaluations', 0) for e in reports),
        'distinct_nontrivial': sum(reports[e].get('distinct_nontrivial', 0) for e in reports),
        'rule': ' || '.join(reports[e].get('rule', '') or '' for e in reports),
        'samples': [s for e in reports for s in (reports[e].get('samples') or [])[:3]] or ['(none)'],
        'explanation': P.get('explanation', '') + ' Part A decides; Part B (bounded_search) replays and stands in, bounded, '
                       'for what is named in bounded_part; it is never counted as proved.',
        'known_findings_seen': n_known,
    }
    if thorough:
        cov['vacuity'] = vac
    ev = {'property': pid, 'tier': tier if tier in ('quick', 'thorough') else 'quick', 'seed': seed, 'level': P['level'],
          'coverage': cov, 'assumptions': P.get('assumptions', []) + ['external or trusted: ' + t for t in trust],
          'wall_s': round(time.time() - t0, 2), 'violations': code}
    write(os.path.join(EVID, pid + '.json'), ev)
    for u in units:
        print('%s: %s (%s verified, %s failed) %s' % (u, units[u]['status'], units[u].get('verified', 0),
                                                     units[u].get('failed', 0), (units[u].get('reason') or '')[:300]))
    for e in reports:
        print('%s: %s cases%s' % (e, reports[e].get('evaluations', 0),
                                  ' UNAVAILABLE ' + reports[e]['unavailable'][:300] if reports[e].get('unavailable') else ''))
    print('%s: exit %d after %.1f s' % (pid, code, time.time() - t0))
    return code


def main():
    if sys.argv[1] == '--replay':
        with open(sys.argv[2]) as f:
            j = json.load(f)
        if 'engine' not in j:
            print(json.dumps(j, indent=1)[:4000])
            return 1
        ctx = Ctx()
        ctx.build()
        m = engine(j['engine'])[1](ctx, j['input'])
        print(m or 'holds')
        return 1 if m else 0
    if sys.argv[1] == '--setup':
        verus.extract.rsx_bin()
        b, log = hx.build()
        if b is None:
            print(log[-2000:])
        return 0
    try:
        return run(sys.argv[1])
    except Exception:
        traceback.print_exc()
        # The check itself failed: that is not a verdict about the code.
        write(os.path.join(EVID, sys.argv[1] + '.json'), {
            'property': sys.argv[1], 'tier': 'quick', 'seed': 1, 'level': props.PROPS[sys.argv[1]]['level'],
            'coverage': {'obligations': 0, 'discharged': 0, 'checker_cmd': 'none', 'trusted_base': [],
                         'explanation': 'the check failed: ' + traceback.format_exc()[-600:]}, 'wall_s': 0.0})
        return 0


if __name__ == '__main__':
    sys.exit(main())
