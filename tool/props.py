#!/usr/bin/env python3
"""Single source of the property list: writes properties.jsonl and MANIFEST.json."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PROPS = []


def P(id, title, statement, over, text, why, files, mech, tech=None, note=None, na=None, observe=None):
    PROPS.append(dict(id=id, title=title, statement=statement, over=over, text=text, why=why, files=files, mech=mech, tech=tech, note=note, na=na, observe=observe))


exec(open(os.path.join(V, 'tool', 'proplist.py')).read())

def main():
    import sys
    sys.path.insert(0, os.path.join(V, 'sa'))
    from registry import CHECKS
    checks, na = [], []
    with open(os.path.join(V, 'properties.jsonl'), 'w') as f:
        for p in PROPS:
            assert len(p['title']) <= 80, p['title']
            d = dict(id=p['id'], title=p['title'], statement=p['statement'], quantifier=dict(over=p['over'], text=p['text']), why_tests_cant=p['why'],
                     anchors=dict(files=p['files'], mechanism=[dict(name=m[0], where=m[1]) for m in p['mech']]))
            if p['observe']: d['anchors']['observe_at'] = p['observe']
            f.write(json.dumps(d) + '\n')
            if p['na']:
                na.append(dict(property=p['id'], reason=p['na']))
            elif p['id'] in CHECKS:
                checks.append(dict(property=p['id'], quick_cmd='python3 run.py %s' % p['id'], thorough_cmd='python3 run.py %s thorough' % p['id'],
                                   evidence_file='evidence/%s.json' % p['id'], technique=p['tech'], level='other', level_note=p['note']))
            else:
                na.append(dict(property=p['id'], reason='no check built yet'))
    m = dict(version=1, setup_cmd='python3 sa/extract.py', checks=checks, not_applicable=na,
             notes='All checks share one exporter (tool/ttx.cpp, libTooling) that parses every CPU and Distributed translation unit of /repo/src with real compile flags; '
                   'see DESIGN.md. No hooks are added to /repo.')
    json.dump(m, open(os.path.join(V, 'MANIFEST.json'), 'w'), indent=1)
    print(len(checks), 'checks', len(na), 'n/a')

main()
