#!/usr/bin/env python3
"""rewrite the table of planted bugs in DESIGN.md (section 5) from seeded/*/meta.json; argument: file with lines 'ID PROP CAUGHT|MISSED ...' from seedtest.py"""
import sys, os, json, re
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__))); res = {}
for f in sys.argv[1:]:
    for l in open(f):
        m = re.match(r'(c\d\d-\S+) (C\d\d) (CAUGHT|MISSED)(.*)', l)
        if m: res[m.group(1)] = ('failing input' if 'no-failing' not in m.group(4) else 'failed obligation') if m.group(3) == 'CAUGHT' else 'missed'
rows = ['| bug | what it breaks | caught by | how |', '|----|----|----|----|']
for i in sorted(os.listdir(V + '/seeded')):
    m = json.load(open(f'{V}/seeded/{i}/meta.json')); rows.append('| %s | %s | %s | %s |' % (i, m['what_it_breaks'].replace('|', '/'), m['property'] if res.get(i) != 'missed' else '-', res.get(i, '?')))
d = open(V + '/DESIGN.md').read(); a = d.index('## 5. '); b = d.index('## 6. ')
d = d[:a] + '## 5. Planted bugs (seeded/) and who catches them\nEach was applied to a scratch copy and run against the check of its property. `failing input`: besides the failed obligations, a bounded harness of that check exhibits the violation on the real code.\n\n' + '\n'.join(rows) + '\n\n' + d[b:]
open(V + '/DESIGN.md', 'w').write(d); print(len(rows) - 2, [i for i in sorted(os.listdir(V + '/seeded')) if i not in res])
