"""Writes /verif/MANIFEST.json from py/props.py."""
import json, os, sys
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(VERIF, 'py'))
import props
checks = []
for pid, P in sorted(props.PROPS.items()):
    checks.append({
        'property': pid,
        'quick_cmd': 'VERIF_TIER=quick python3 py/check.py ' + pid,
        'thorough_cmd': 'VERIF_TIER=thorough python3 py/check.py ' + pid,
        'evidence_file': 'evidence/%s.json' % pid,
        'technique': 'contract-based deductive verification (Verus) of functions extracted from the source on every run'
                     + (', with a bounded counterexample search on the real code as replay and stand-in'),
        'level': P['level'],
        'level_note': 'Proved: ' + P['proved_part'] + '. Bounded only: ' + (P['bounded_part'] or 'nothing')
                      + '. Assumed: ' + '; '.join(P.get('assumptions', [])) + '.',
    })
m = {'version': 1, 'setup_cmd': 'python3 py/check.py --setup', 'checks': checks,
     'not_applicable': [{'property': p, 'reason': r} for p, r in sorted(props.NOT_APPLICABLE.items())]}
with open(os.path.join(VERIF, 'MANIFEST.json'), 'w') as f:
    json.dump(m, f, indent=1)
    f.write('\n')
