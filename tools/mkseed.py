#!/usr/bin/env python3
"""mkseed.py ID PROP DEMO 'demo args' 'needs' 'breaks' : make seeded/ID from the edits in /tmp/sc/repo (a scratch copy of /repo), confirm the demo on both trees, reset the copy.
DEMO: gate | twoparty | aes | <path to a .cpp>"""
import sys, os, subprocess, json, shutil
ID, PROP, DEMO, ARGS, NEEDS, BREAKS = sys.argv[1:7]
V = '/verif'; SC = '/tmp/sc/repo'; d = f'{V}/seeded/{ID}'
diff = subprocess.run(['git', '-C', SC, 'diff'], stdout=subprocess.PIPE, text=True).stdout
assert diff.strip(), 'no edit'
os.makedirs(d, exist_ok=True)
open(d + '/patch.diff', 'w').write(diff)
src = f'{V}/harness/{DEMO}.cpp' if not DEMO.endswith('.cpp') else DEMO
t = open(src).read()
if os.path.abspath(src) != d + '/demo.cpp': open(d + '/demo.cpp', 'w').write(t)
if 'common.h"' in t: shutil.copy(f'{V}/harness/common.h', d + '/common.h')
S = ['util/util.cpp', 'util/log.cpp', 'crypto/BN.cpp', 'crypto/OT.cpp', 'crypto/OT_extension.cpp', 'tcpip/tcpip.cpp', 'garbled_circuit/garbled_circuit.cpp', 'garbled_circuit/garbled_circuit_util.cpp', 'garbled_circuit/garbled_circuit_high_mem.cpp', 'garbled_circuit/garbled_circuit_low_mem.cpp', 'scd/scd.cpp', 'scd/scd_evaluator.cpp', 'scd/scheduling.cpp', 'scd/parse_netlist.cpp', 'scd/v_2_scd.cpp']
if '//STANDALONE' in t: S = []
open(d + '/demo.sh', 'w').write(f'''#!/bin/bash
# run with cwd = the repository after its build; exit 0 = behaviour intact
D=$(cd "$(dirname "$0")" && pwd); R=$PWD
T=$(mktemp -d /tmp/demo.XXXXXX) || exit 2; trap 'rm -rf -- "$T"' EXIT
F="-std=c++11 -O1 -w -march=x86-64-v2 -maes -mpclmul -fno-access-control -DDEMO_REPO=\\"$R\\" -I$R -I$R/_build -I$D"
for s in {' '.join(S)}; do g++ $F -c -o "$T/$(echo $s | tr / _).o" "$R/$s" & done
g++ $F -c -o "$T/demo.o" "$D/demo.cpp" &
wait
g++ -o "$T/demo" "$T"/*.o -lboost_program_options -lcrypto -lrt -lpthread -ldl || exit 2
cd "$T" && timeout 240 ./demo {ARGS} > out 2>&1; rc=$?
tail -c 1500 out; exit $rc
''')
os.chmod(d + '/demo.sh', 0o755)
json.dump(dict(property=PROP, needs=NEEDS, what_it_breaks=BREAKS), open(d + '/meta.json', 'w'), indent=1)
r1 = subprocess.run([d + '/demo.sh'], cwd=SC, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors='replace')
subprocess.run(['git', '-C', SC, 'checkout', '-q', '--', '.'], check=True)
r0 = subprocess.run([d + '/demo.sh'], cwd=SC, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors='replace')
print('patched rc', r1.returncode, r1.stdout[-300:]); print('clean rc', r0.returncode, r0.stdout[-200:])
if r0.returncode != 0 or r1.returncode in (0, 2): print('NOT A GOOD DEMO')
