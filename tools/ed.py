#!/usr/bin/env python3
"""ed.py FILE OLD NEW [nth|all]: replace text in the scratch copy /tmp/sc/repo."""
import sys
f, o, n = sys.argv[1:4]; w = sys.argv[4] if len(sys.argv) > 4 else '0'
p = '/tmp/sc/repo/' + f; s = open(p).read(); c = s.count(o); assert c, 'text not found: ' + o
if w == 'all': s = s.replace(o, n)
else:
    k = int(w); assert c > k; parts = s.split(o); s = o.join(parts[:k + 1]) + n + o.join(parts[k + 1:])
open(p, 'w').write(s)
