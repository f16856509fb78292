"""Runs Verus on the extracted units and turns its output into verdicts."""
import json, os, re, subprocess, sys, time, hashlib

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(VERIF, 'py'))
import extract

BUILD = os.environ.get('VERIF_BUILD', os.path.join(VERIF, 'build'))
VERUS = os.environ.get('VERUS', 'verus')

# What the verifier says when an obligation is not met (anything else is not a verdict).
OBLIGATION = ('postcondition not satisfied', 'precondition not satisfied', 'assertion failed',
              'invariant not satisfied', 'decreases not satisfied', 'possible arithmetic underflow/overflow',
              'possible division by zero', 'index out of bounds', 'recursive call may not terminate',
              'could not prove termination', 'cannot show', 'unable to prove', 'possible bit shift',
              'unreachable', 'loop ensures not satisfied', 'constructed value may fail')


def env():
    e = dict(os.environ)
    for k in ('RUSTFLAGS', 'RUSTUP_TOOLCHAIN', 'RUSTC_WRAPPER'):
        e.pop(k, None)
    e['RUST_MIN_STACK'] = '1000000000'
    return e


def generate(name, vacuity=None, overrides=None, repo=None):
    """-> (text, extractor); raises extract.Lost."""
    u = extract.Unit(os.path.join(VERIF, 'verus', name + '.vspec'))
    x = extract.Extractor(u, repo=repo, overrides=overrides)
    x.vacuity = vacuity
    return x.generate(), x


def line_owner(text):
    """-> for each line (1-based) the function of the code under contract it belongs to and the
    innermost loop there (its ordinal), or None."""
    owner = [None]
    cur = None
    stack = []
    for l in text.split('\n'):
        best = (cur, stack[-1] if stack else None)
        for m in re.finditer(r'/\*@@(fn|loop|pool|end)\b ?(\S*?)\*/', l):
            if m.group(1) == 'fn':
                cur, stack = m.group(2), []
                best = (cur, None)
            elif m.group(1) == 'loop':
                stack.append(int(m.group(2)))
                best = (cur, stack[-1])
            elif m.group(1) == 'pool':
                if stack:
                    stack.pop()
            else:
                cur, stack = None, []
        owner.append(best)
    return owner


def trusted(text):
    """What the verifier accepts without proof in this text."""
    out = []
    for m in re.finditer(r'#\[verifier::external_body\]\s*((?:#\[[^\]]*\]\s*)*(?:pub\s+)?(?:proof |exec |broadcast |closed )*(?:fn|struct|enum)\s+\w+)', text):
        out.append('external_body: ' + ' '.join(m.group(1).split()))
    for m in re.finditer(r'assume_specification[^;\[]*\[\s*([^\]]*)\]', text):
        out.append('assume_specification: ' + ' '.join(m.group(1).split()))
    for m in re.finditer(r'\b(assume|admit)\(', text):
        out.append(m.group(1) + ' at offset %d' % m.start())
    for m in re.finditer(r'\buninterp spec fn (\w+)', text):
        out.append('uninterpreted: ' + m.group(1))
    for m in re.finditer(r'\baxiom fn (\w+)', text):
        out.append('axiom: ' + m.group(1))
    return out


def run_verus(path, rlimit=40, threads=4, extra=(), timeout=420):
    cmd = [VERUS, path, '--output-json', '--time-expanded', '--error-format=json', '--multiple-errors', '60',
           '--num-threads', str(threads), '--rlimit', str(rlimit), '--crate-type=lib', *extra]
    t = time.time()
    p = subprocess.Popen(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, env=env(),
                         cwd=os.path.dirname(path), start_new_session=True)
    try:
        out, err = p.communicate(timeout=timeout)
    except subprocess.TimeoutExpired:
        os.killpg(p.pid, 9)
        p.communicate()
        return {'ok': False, 'timeout': True, 'wall': time.time() - t, 'errors': [], 'other': ['timeout'], 'cmd': cmd}
    wall = time.time() - t
    res = {'wall': wall, 'errors': [], 'other': [], 'cmd': cmd, 'rc': p.returncode}
    try:
        o = out.decode('utf-8', 'replace')
        j = json.loads(o[o.index('{'):])
    except ValueError:
        j = None
    for l in err.decode('utf-8', 'replace').splitlines():
        if not l.startswith('{'):
            continue
        try:
            d = json.loads(l)
        except ValueError:
            continue
        if d.get('level') != 'error' or d['message'].startswith('aborting due'):
            continue
        spans = [{'line': s['line_start'], 'line_end': s['line_end'], 'label': s.get('label') or '',
                  'primary': s['is_primary'],
                  'text': ' '.join(t['text'].strip() for t in s['text'])[:300], 'file': s['file_name']} for s in d['spans']]
        for c in d.get('children', []):
            for s in c.get('spans', []):
                spans.append({'line': s['line_start'], 'line_end': s['line_end'], 'label': c.get('message') or '',
                              'primary': False, 'text': ' '.join(t['text'].strip() for t in s['text'])[:300], 'file': s['file_name']})
        e = {'message': d['message'], 'spans': spans}
        if any(d['message'].startswith(x) or x in d['message'] for x in OBLIGATION):
            res['errors'].append(e)
        else:
            res['other'].append(d['message'][:300])
            e['other'] = True
    if j is None:
        res['other'].append('no result from the verifier: ' + err.decode('utf-8', 'replace')[-400:])
        res.update(ok=False, verified=0, failed=0)
        return res
    vr = j.get('verification-results', {})
    res['verified'] = vr.get('verified', 0)
    res['failed'] = vr.get('errors', 0)
    res['ok'] = bool(vr.get('success')) and p.returncode == 0 and not res['errors'] and not res['other']
    if vr.get('encountered-vir-error'):
        res['other'].append('the verifier rejected the text')
    t = j.get('times-ms', {})
    res['smt_ms'] = t.get('smt', {}).get('total', 0) if isinstance(t.get('smt'), dict) else 0
    fns = []
    for m in (t.get('smt', {}) or {}).get('smt-run-module-times', []):
        for f in m.get('function-breakdown', []):
            fns.append({'function': f.get('function'), 'mode': f.get('mode:') or f.get('mode'), 'ms': f.get('time', 0),
                        'ok': f.get('success'), 'rlimit': f.get('rlimit', 0)})
    res['functions'] = fns
    res['verus'] = j.get('verus', {}).get('version')
    return res


def check_unit(name, thorough=False, repo=None, overrides=None, label=None):
    """-> verdict dict: status PROVED | FAILED | UNDECIDED, with details."""
    d = os.path.join(BUILD, 'verus')
    os.makedirs(d, exist_ok=True)
    out = {'unit': name}
    try:
        text, x = generate(name, overrides=overrides, repo=repo)
    except extract.Lost as e:
        return dict(out, status='UNDECIDED', reason='anchor lost: %s' % e)
    except Exception as e:
        return dict(out, status='UNDECIDED', reason='extraction failed: %r' % e)
    path = os.path.join(d, '%s.rs' % (label or name))
    with open(path, 'w') as f:
        f.write(text)
    out.update(path=path, rewrites=x.counts, contracted=x.contracted, uncontracted=x.uncontracted,
               external=x.external, trusted=trusted(text), sha=hashlib.sha256(text.encode()).hexdigest()[:16])
    r = run_verus(path)
    runs = [r]
    if not r['ok'] and not r['other'] or any('rlimit' in o.lower() or 'resource limit' in o.lower() for o in r['other']):
        # A failure counts only if it persists with more resources and other seeds.
        for seed in (7, 23):
            r2 = run_verus(path, rlimit=120, extra=('--smt-option', 'smt.random_seed=%d' % seed))
            runs.append(r2)
            if r2['ok']:
                break
    best = next((q for q in runs if q['ok']), None)
    out['runs'] = len(runs)
    last = best or runs[-1]
    out.update(wall=sum(q['wall'] for q in runs), smt_ms=last.get('smt_ms', 0), verified=last.get('verified', 0),
               failed=last.get('failed', 0), functions=last.get('functions', []), cmd=' '.join(last['cmd']), verus=last.get('verus'))
    if best:
        return dict(out, status='PROVED')
    # an exceeded resource limit elsewhere does not unsay an obligation that failed
    hard = [o for o in last['other'] if not ('rlimit' in o.lower() or 'resource limit' in o.lower() or 'not all errors' in o)]
    if hard or not last['errors']:
        return dict(out, status='UNDECIDED', reason='; '.join(last['other'])[:600] or 'no verdict')
    owner = line_owner(text)
    errs = []
    for e in last['errors']:
        fn = loop = None
        for s in sorted(e['spans'], key=lambda s: not s['primary']):
            if os.path.basename(s['file']) != os.path.basename(path):
                continue
            o = owner[s['line']] if s['line'] < len(owner) else None
            if o and o[0]:
                fn, loop = o
                break
        errs.append({'function': fn, 'loop': loop, 'message': e['message'], 'spans': e['spans'][:4]})
    out['errors'] = errs
    real = [e for e in errs if e['function']]
    if not real:
        return dict(out, status='UNDECIDED', reason='only lemmas failed: %s' % errs[0]['message'])
    if x.uncontracted:
        unk = [u for u in x.uncontracted if u.split('::')[-1] in text]
        return dict(out, status='UNDECIDED', reason='functions without a contract: %s' % ', '.join(unk))
    return dict(out, status='FAILED')


def vacuity(name, rounds=24, overrides=None):
    """Plants assert(false) at every function entry and in every loop body; each has to fail.
    One failing assertion can hide a later one of the same function, so the points not reached are
    planted again, the first of every function only."""
    planted, hit, todo, other = None, set(), 'all', []
    for _ in range(rounds):
        try:
            text, x = generate(name, vacuity=todo, overrides=overrides)
        except Exception as e:
            return {'status': 'UNDECIDED', 'reason': repr(e)}
        path = os.path.join(BUILD, 'verus', '%s_vac.rs' % name)
        os.makedirs(os.path.dirname(path), exist_ok=True)
        with open(path, 'w') as f:
            f.write(text)
        r = run_verus(path, timeout=600)
        lines = {}
        for i, l in enumerate(text.split('\n'), 1):
            m = re.search(r'/\*@@vac (\S+)\*/', l)
            if m:
                lines[i] = m.group(1)
        got = set()
        for e in r['errors']:
            if e['message'] == 'assertion failed':
                for s in e['spans']:
                    if s['line'] in lines:
                        got.add(lines[s['line']])
        if planted is None:
            planted = list(lines.values())
        other += r['other'][:2]
        if not got - hit and todo != 'all':
            break
        hit |= got
        missed = [p for p in planted if p not in hit]
        if not missed:
            break
        first = {}
        for p in missed:
            first.setdefault(p.split('#')[0], p)
        todo = set(first.values())
    return {'planted': len(planted), 'refuted': len(hit), 'contradictory': sorted(set(planted) - hit), 'other': other[:3]}


if __name__ == '__main__':
    if len(sys.argv) > 2 and sys.argv[2] == 'vac':
        print(json.dumps(vacuity(sys.argv[1]), indent=1)[:4000])
    else:
        v = check_unit(sys.argv[1])
        fs = v.pop('functions', [])
        v.pop('trusted', None) if len(sys.argv) < 3 else None
        print(json.dumps(v, indent=1)[:5000])
