#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from the table below (run by hand after editing it)."""
import json, os
V = os.path.dirname(os.path.abspath(__file__))
INC, SRC = 'include/state-observation/', 'src/'
P = []


def prop(id, title, statement, over, qtext, why, files, mech, technique=None, note='', level='proof', observe=None):
    P.append(dict(id=id, title=title, statement=statement, over=over, qtext=qtext, why=why, files=files, mech=mech,
                  technique=technique, note=note, level=level, observe=observe))


RBK = [INC + 'tools/rigid-body-kinematics.hpp', INC + 'tools/rigid-body-kinematics.hxx',
       SRC + 'rigid-body-kinematics.cpp']
exec(open(os.path.join(V, 'props_table.py')).read())
assert len({p['id'] for p in P}) == len(P)
P.sort(key=lambda p: p['id'])
with open(os.path.join(V, 'properties.jsonl'), 'w') as f:
    for p in P:
        assert len(p['title']) <= 80, p['title']
        a = dict(files=p['files'], mechanism=[dict(name=n, where=w) for n, w in p['mech']], hook_needed=None)
        if p['observe']:
            a['observe_at'] = p['observe']
        f.write(json.dumps(dict(id=p['id'], title=p['title'], statement=p['statement'],
                                quantifier=dict(over=p['over'], text=p['qtext']), why_tests_cant=p['why'],
                                anchors=a)) + '\n')
TECH = ('contracts on the real functions, executed symbolically from the re-typed current sources; every obligation '
        'discharged by exact real-algebra normalisation or z3')
NOTE = ('Every path of the functions under contract, all real values of every input at the stated dimensions. '
        'Machine doubles treated as reals; trusted: the VC generator in vc/, z3, g++. ')
json.dump(dict(
    version=1, setup_cmd='true',
    checks=[dict(property=p['id'], quick_cmd='python3 check.py %s --tier quick' % p['id'],
                 thorough_cmd='python3 check.py %s --tier thorough' % p['id'],
                 evidence_file='evidence/%s.json' % p['id'], technique=p['technique'] or TECH, level=p['level'],
                 level_note=NOTE + p['note']) for p in P if p['id'] not in NA],
    not_applicable=[dict(property=k, reason=v) for k, v in sorted(NA.items())]),
    open(os.path.join(V, 'MANIFEST.json'), 'w'), indent=1)
