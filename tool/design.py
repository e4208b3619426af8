#!/usr/bin/env python3
"""Writes DESIGN.md: the hand-written text below, joined with the property list, the seeded bugs and the known findings."""
import glob, io, json, os, contextlib
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
NS = {}
exec(open(os.path.join(V, 'tool', 'designtext.py')).read(), NS)
HEAD, DETAIL, TAIL = NS['HEAD'], NS['DETAIL'], NS['TAIL']
PROPS = []
def P(id, title, statement, over, text, why, files, mech, tech=None, note=None, na=None, observe=None):
    PROPS.append(dict(id=id, title=title, statement=statement, over=over, text=text, why=why, files=files, mech=mech, tech=tech, note=note, na=na))
exec(open(os.path.join(V, 'tool', 'proplist.py')).read())
seeds = {}
for f in sorted(glob.glob(os.path.join(V, 'seeded', '*', 'meta.json'))):
    m = json.load(open(f)); m['id'] = os.path.basename(os.path.dirname(f))
    seeds.setdefault(m['property'], []).append(m)
kf = json.load(open(os.path.join(V, 'known_findings.json')))
o = io.StringIO()
o.write(HEAD)
o.write('\n## Properties\n')
for p in PROPS:
    if p['na']: continue
    i = p['id']
    o.write('\n### %s — %s\n\n%s\n\n' % (i, p['title'], p['statement']))
    o.write('*Quantifies over* %s. *Why tests cannot settle it:* %s.\n\n' % (p['text'], p['why']))
    o.write('**Decided by** %s.\n\n' % p['tech'].rstrip('.'))
    if i in DETAIL: o.write(DETAIL[i].strip() + '\n\n')
    o.write('*Bounds and trust:* %s\n\n' % p['note'])
    if seeds.get(i):
        o.write('*Planted bugs, all reported by this check:*\n')
        for m in seeds[i]:
            o.write('- `%s` — %s (needs: %s)\n' % (m['id'], m['what_it_breaks'], m['needs']))
        o.write('\n')
    fx = [x for x in kf['fixed'] if 'property=%s ' % i in x]
    if fx:
        o.write('*Genuine defects it found, repaired in /repo:*\n')
        for x in fx: o.write('- `%s` %s\n' % tuple(x.split('property=%s ' % i)[1].split(' ', 1)))
        o.write('\n')
    fs = [x for x in kf['findings'] if x['property'] == i]
    if fs:
        o.write('*Known findings (not repaired):* ')
        if len(fs) > 4: o.write('%d entries `%s` … : %s\n' % (len(fs), fs[0]['key'], fs[0]['what']))
        else:
            for x in fs: o.write('`%s`: %s\n' % (x['key'], x['what']))
        o.write('\n')
o.write('\n## Not applicable\n\n')
for p in PROPS:
    if p['na']: o.write('- **%s %s** — %s\n' % (p['id'], p['title'], p['na']))
o.write(TAIL)
open(os.path.join(V, 'DESIGN.md'), 'w').write(o.getvalue())
print(len(o.getvalue()), 'characters')
