#!/usr/bin/env python3
"""refresh the last two columns of the table in DESIGN.md from the evidence files"""
import json, re, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__))); out = []
for l in open(V + '/DESIGN.md'):
    m = re.match(r'\| (C\d\d) \|', l); f = V + '/evidence/%s.json' % m.group(1) if m else ''
    if m and os.path.exists(f):
        e = json.load(open(f)); c = l.rstrip('\n').split('|'); c[-3] = ' %d ' % e['coverage']['obligations']; c[-2] = ' %.0f ' % e['wall_s']; l = '|'.join(c) + '\n'
    out.append(l)
open(V + '/DESIGN.md', 'w').writelines(out)
