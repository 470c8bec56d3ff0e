#!/usr/bin/env python3
"""rewrite the table of planted bugs in DESIGN.md from seeded/*/meta.json"""
import glob, json, os, re
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
rows = []
for f in sorted(glob.glob(here + '/seeded/*/meta.json')):
    d = json.load(open(f))
    rows.append('| %s | %s | %s |' % (os.path.basename(os.path.dirname(f)), d.get('caught_by', d['property']), d['what_it_breaks'].replace('|', '/')))
p = here + '/DESIGN.md'
s = open(p).read()
m = re.search(r'(\| seed \| [^\n]*\n\|---\|---\|---\|\n)((?:\|[^\n]*\n)*)', s)
open(p, 'w').write(s[:m.start(2)] + '\n'.join(rows) + '\n' + s[m.end(2):])
print(len(rows), 'rows')
