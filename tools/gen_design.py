"""Writes /verif/DESIGN.md."""
import glob, json, os, re, sys, textwrap
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(VERIF, 'py'))
import extract, props
R = lambda p: open(os.path.join(VERIF, p)).read()
T = {p['id']: p for p in map(json.loads, R('properties.jsonl').splitlines())}
fill = lambda s, i='': '\n'.join(textwrap.wrap(s, 118, initial_indent=i, subsequent_indent=' ' * len(i), break_long_words=False))
o = [R('doc/head.md'), '## 3. What the extraction changes', '',
     'The text that is verified is the text of the source, with these rewrites (the counts per run are in the evidence):', '']
o += [fill(v, '- **%s**: ' % k) for k, v in extract.REWRITES.items()] + ['']
o += ['Comments and attributes are dropped; `use` lines are replaced by those of the unit; tests are not extracted. Substitutions', 'of operations by shims with a contract are listed in the `subst` and `methods` sections of the contract file.', '']
o += ['## 4. The properties', '']
for p in sorted(T):
    o += ['### %s %s' % (p, T[p]['title']), '']
    if p in props.NOT_APPLICABLE:
        o += [fill('Not applicable: ' + props.NOT_APPLICABLE[p]), '']
        continue
    P = props.PROPS[p]
    o += [fill('*Level*: %s. *Units*: %s. *Search*: %s.' % (P['level'].replace('_', ' '), ', '.join(P['units'] + (['units made from generated code'] if 'variants' in P else [])), ', '.join(P['engines']))), '',
          fill('*Proved*: ' + P['proved_part'] + '.'), '', fill('*Bounded only*: ' + (P['bounded_part'] or 'nothing') + '.'), '', fill('*Assumed*: ' + '; '.join(P.get('assumptions', [])) + '.'), '']
k = json.loads(R('known_findings.json'))
o += ['## 5. Genuine defects', '', 'Repaired in `/repo` (one commit each):', ''] + [fill(f.replace('fixed: ', ''), '- ') for f in k['fixed']]
o += ['', 'Recorded in `known_findings.json` (the golden files pin the generated code concerned, or the repair is a decision about the', 'format; each is identified by the input that fails):', '']
o += [fill('%s: %s' % (f['property'], f['what']), '- ') for f in k['findings']] + ['']
o += [R('doc/tail.md'), '## 8. Planted changes', '', 'Each one compiles, passes the stable tests and has a demonstration. All are caught by the check of their property.',
      '"obligation" says that a proof fails as well; "search" that a failing input is found.', '', '| change | property | breaks | needs | caught by |', '|---|---|---|---|---|']
C = json.loads(R('doc/caught.json'))
for f in sorted(glob.glob(os.path.join(VERIF, 'seeded', '*', 'meta.json'))):
    n = os.path.basename(os.path.dirname(f)); m = json.load(open(f))
    o.append('| %s | %s | %s | %s | %s |' % (n, m['property'], m['what_it_breaks'], m['needs'], C.get(n, '')))
with open(os.path.join(VERIF, 'DESIGN.md'), 'w') as f:
    f.write('\n'.join(o) + '\n')
