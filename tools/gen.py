"""Writes properties.jsonl and MANIFEST.json from the table below (run by hand after editing it)."""
import json
import os
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = []


def prop(id, title, statement, over, text, why, files, mech, note=None, na=None):
    P.append(dict(id=id, title=title, statement=statement, over=over, text=text, why=why, files=files, mech=mech, note=note, na=na))


exec(open(os.path.join(HERE, 'tools', 'props.py')).read())
P.sort(key=lambda p: p['id'])
with open(os.path.join(HERE, 'properties.jsonl'), 'w') as f:
    for p in P:
        assert len(p['title']) <= 80, p['title']
        f.write(json.dumps(dict(id=p['id'], title=p['title'], statement=p['statement'], quantifier=dict(over=p['over'], text=p['text']),
                                why_tests_cant=p['why'], anchors=dict(files=p['files'], mechanism=[dict(name=a, where=b) for a, b in p['mech']]))) + '\n')
T = 'contract-based deductive verification (verification conditions over LLVM IR extracted from /repo on every run, discharged by z3 and cvc5)'
m = dict(version=1, setup_cmd='python3-vt -m vc.setup',
         checks=[dict(property=p['id'], quick_cmd='python3-vt -m vc.run ' + p['id'], thorough_cmd='python3-vt -m vc.run %s --tier thorough' % p['id'],
                      technique=T, level='proof', level_note=p['note']) for p in P if p['note']],
         not_applicable=[dict(property=p['id'], reason=p['na']) for p in P if not p['note']])
for p in P:
    assert p['note'] or p['na'], p['id']
json.dump(m, open(os.path.join(HERE, 'MANIFEST.json'), 'w'), indent=1)
print(len(m['checks']), 'claimed,', len(m['not_applicable']), 'not applicable')
