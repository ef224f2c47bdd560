#!/usr/bin/env python3
"""seedtest.py [ID...]: apply each seeded bug to /repo, run its property's check, undo. Prints caught / missed."""
import sys, os, json, subprocess, time
V = '/verif'; ids = sys.argv[1:] or sorted(os.listdir(V + '/seeded'))
for i in ids:
    d = f'{V}/seeded/{i}'; m = json.load(open(d + '/meta.json'))
    assert not subprocess.run(['git', '-C', '/repo', 'status', '--porcelain'], stdout=subprocess.PIPE, text=True).stdout.strip()
    subprocess.run(['git', '-C', '/repo', 'apply', d + '/patch.diff'], check=True)
    try:
        t = time.time()
        r = subprocess.run([V + '/check.py', m['property'], '--tier', 'quick'], cwd=V, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors='replace')
    finally: subprocess.run(['git', '-C', '/repo', 'checkout', '-q', '--', '.'], check=True)
    l = [x for x in r.stdout.split('\n') if x.startswith('VIOLATION')]
    print(i, m['property'], 'CAUGHT' if r.returncode == 1 and l else 'MISSED rc=%d' % r.returncode, l[:1], '%.0fs' % (time.time() - t), flush=True)
    if not l: print(r.stdout[-1500:])
