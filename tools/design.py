"""Writes /verif/DESIGN.md from tools/design_text.py, properties.jsonl, evidence/, seeded/ and known_findings.json.
Run the quick checks on the unchanged tree first (the families come from the evidence)."""
import glob
import json
import os
import sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V + '/tools')
import design_text as T

props = [json.loads(l) for l in open(V + '/properties.jsonl')]
man = {c['property']: c for c in json.load(open(V + '/MANIFEST.json')).get('checks', []) if 'property' in c} if os.path.exists(V + '/MANIFEST.json') else {}
seeds = {}
for d in sorted(glob.glob(V + '/seeded/*/meta.json')):
    m = json.load(open(d))
    seeds.setdefault(m['property'], []).append((os.path.basename(os.path.dirname(d)), m['needs']))
known = json.load(open(V + '/known_findings.json'))
fixes = {}
for f in known['fixed']:
    p, h, t = f[len('fixed: property='):].split(' ', 2)
    fixes.setdefault(p, []).append((h, t))
out = [T.INTRO, '\n## Properties\n']
for p in props:
    i = p['id']
    out.append('### %s %s\n' % (i, p['title']))
    out.append('Quantified over: %s.\n' % p['quantifier']['text'])
    out.append('**Decided by** ' + T.HOW[i] + '\n')
    e = json.load(open(V + '/evidence/%s.json' % i))
    fam = e['coverage'].get('families', [])
    out.append('Families (quick: %s executions, %s states, about %d s on 8 cores):' % (format(e['coverage'].get('evaluations', 0), ','), format(e['coverage']['states'], ','), round(e['wall_s'])))
    out += ['* *%s* — %s (%s)' % (f['name'], f['bound'], format(f['executions'], ',')) for f in fam]
    if i in T.LIMITS:
        out.append('\nNot judged, and choices made: ' + T.LIMITS[i])
    if i in fixes:
        out.append('\nRepaired here: ' + '; '.join('%s (%s)' % (t, h) for h, t in fixes[i]) + '.')
    if i in seeds:
        out.append('\nPlanted: ' + '; '.join('`%s` — needs %s' % s for s in seeds[i]) + '.' + (' ' + T.CAUGHT[i] if i in T.CAUGHT else ''))
    out.append('')
out.append(T.REST)
out.append('\n## Planted bugs and the checks that catch them\n\n| planted bug | property | caught by |\n|---|---|---|')
for p in props:
    for s, n in seeds.get(p['id'], []):
        out.append('| %s | %s | %s |' % (s, p['id'], T.EXTRA.get(s, p['id'])))
open(V + '/DESIGN.md', 'w').write('\n'.join(out) + '\n')
print(len(out), 'blocks')
