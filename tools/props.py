#!/usr/bin/env python3
"""Single source of /verif/properties.jsonl and /verif/MANIFEST.json: python3 tools/props.py rewrites both."""
import json, os
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = []
PK, UT, CT, CN, CC, NO, ED, CX, CV = ('include/dd/%s.hpp' % x for x in ('Package', 'UniqueTable', 'ComplexTable', 'ComplexNumbers', 'ComplexCache', 'Node', 'Edge', 'Complex', 'ComplexValue'))


def prop(id, title, statement, over, text, why, files, mech, check=None, na=None):
    assert len(title) <= 80, title
    P.append((id, title, statement, over, text, why, files, mech, check, na))


exec(open(os.path.join(HERE, 'tools', 'proplist.py')).read())

with open(os.path.join(HERE, 'properties.jsonl'), 'w') as f:
    for id, title, statement, over, text, why, files, mech, check, na in P:
        f.write(json.dumps({'id': id, 'title': title, 'statement': statement, 'quantifier': {'over': over, 'text': text}, 'why_tests_cant': why,
                            'anchors': {'files': files, 'mechanism': [{'name': n, 'where': w} for n, w in mech]}}) + '\n')
man = {'version': 1, 'setup_cmd': 'python3 -c "import sys; assert sys.version_info >= (3, 8)" && command -v clang++ >/dev/null',
       'checks': [], 'not_applicable': []}
for id, title, statement, over, text, why, files, mech, check, na in P:
    if check:
        man['checks'].append({'property': id, 'quick_cmd': 'python3 check.py %s quick' % id, 'thorough_cmd': 'python3 check.py %s thorough' % id,
                              'technique': check[0], 'level': 'other', 'level_note': check[1]})
    else:
        man['not_applicable'].append({'property': id, 'reason': na})
man['notes'] = 'Every check lowers harness/driver.cpp (one wrapper per public entry point) against the current /repo/include with clang++ and analyses the resulting IR; nothing is executed. See DESIGN.md.'
json.dump(man, open(os.path.join(HERE, 'MANIFEST.json'), 'w'), indent=1)
print(len(P), 'properties', len(man['checks']), 'checks')
