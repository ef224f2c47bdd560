"""Compile /repo's current sources to one LLVM module, inline everything that has no contract, canonicalise."""
import os, re, subprocess, tempfile, hashlib, sys, shutil
from concurrent.futures import ThreadPoolExecutor
REPO = os.environ.get('VERIF_REPO', '/repo')
LLVM = '/usr/lib/llvm-18/bin/'
HERE = os.path.dirname(os.path.abspath(__file__))
SRCS = ['util/util.cpp', 'crypto/BN.cpp', 'crypto/OT.cpp', 'crypto/OT_extension.cpp', 'tcpip/tcpip.cpp',
        'garbled_circuit/garbled_circuit.cpp', 'garbled_circuit/garbled_circuit_util.cpp',
        'garbled_circuit/garbled_circuit_high_mem.cpp', 'garbled_circuit/garbled_circuit_low_mem.cpp']
SCD = ['scd/scd.cpp', 'scd/scd_evaluator.cpp', 'scd/scheduling.cpp', 'scd/parse_netlist.cpp', 'scd/v_2_scd.cpp']

class BuildError(Exception): pass

def config_dir(tmp):
    """tinygarble_config.h as the build configures it (written fresh, so /repo/_build is not needed)"""
    d = os.path.join(tmp, 'cfg'); os.makedirs(os.path.join(d, 'util'), exist_ok=True)
    src = os.path.join(REPO, 'util/tinygarble_config.h.in')
    t = open(src).read()
    t = re.sub(r'#cmakedefine\s+ENABLE_LOG\b.*', '#define ENABLE_LOG', t)
    t = re.sub(r'#cmakedefine\s+(\w+).*', r'/* #undef \1 */', t)
    t = t.replace('@TinyGarble_SOURCE_DIR@', REPO).replace('@TinyGarble_BINARY_DIR@', REPO + '/_build')
    t = re.sub(r'@\w+_VERSION_\w+@', '0', t)
    t = re.sub(r'@\w+@', '', t); t = re.sub(r'\$\{\w+\}', '', t)
    open(os.path.join(d, 'util/tinygarble_config.h'), 'w').write(t)
    return d

def run(cmd, **kw):
    p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, **kw)
    if p.returncode != 0:
        raise BuildError(' '.join(cmd[:6]) + '...: ' + p.stderr[-2000:])
    return p.stdout

def is_lib(name):
    """functions of the C++ standard library / boost are never inlined; they are handled by trusted contracts"""
    return bool(re.match(r'_Z(T|G)|_ZN?K?S[tabsiod]|_ZN?K?9__gnu_cxx|_ZNK?5boost|_ZN5boost|_ZSt|_ZNSa|_ZNKSa|_ZNSs', name)) or name.startswith(('_ZNSt', '_ZNKSt', '_ZSt', '_ZN9__gnu', '_ZNK9__gnu', '_ZN5boost', '_ZNK5boost', '_ZStpl', '_ZStls', '_ZSteq'))

def module(srcs, keep, tmp, passes=None, extra=(), inline_lib=()):
    cfg = config_dir(tmp)
    def one(s):
        o = os.path.join(tmp, s.replace('/', '_') + '.bc')
        run([LLVM + 'clang++', '-std=c++11', '-O0', '-Xclang', '-disable-O0-optnone', '-march=x86-64-v2', '-maes', '-w', '-fno-discard-value-names',
             '-DNDEBUG', '-I' + REPO, '-I' + cfg, '-include', os.path.join(HERE, 'verif_log.h'), '-emit-llvm', '-c', *extra, '-o', o, os.path.join(REPO, s)])
        return o
    with ThreadPoolExecutor(8) as ex:
        objs = list(ex.map(one, srcs))
    allbc = os.path.join(tmp, 'all.ll')
    run([LLVM + 'llvm-link', '-S', '-o', allbc, *objs])
    text = open(allbc).read()
    out = []
    calls = {}
    for l in text.split('\n'):
        if l.startswith('attributes #'):
            l = re.sub(r'\b(noinline|optnone|alwaysinline)\b', '', l)
        elif l.startswith('define '):
            m = re.search(r'@("[^"]*"|[\w.$-]+)\(', l)
            n = m.group(1).strip('"')
            want = 'alwaysinline' if (not keep(n) and (not is_lib(n) or any(re.search(x, n) for x in inline_lib))) else 'noinline'
            head, tail = l[:m.end()], l[m.end():]
            # after the matching ')' of the parameter list
            d = 1; k = 0
            while d:
                if tail[k] == '(': d += 1
                elif tail[k] == ')': d -= 1
                k += 1
            rest = tail[k:]
            mm = re.search(r' #\d+', rest)
            if mm: rest = rest[:mm.start()] + ' ' + want + rest[mm.start():]
            else:
                mm = re.match(r'( unnamed_addr| local_unnamed_addr)?', rest)
                rest = rest[:mm.end()] + ' ' + want + rest[mm.end():]
            l = head + tail[:k] + rest
        out.append(l)
    ann = os.path.join(tmp, 'ann.ll')
    open(ann, 'w').write('\n'.join(out))
    fin = os.path.join(tmp, 'final.ll')
    run([LLVM + 'opt', '-S', '-passes=' + (passes or 'always-inline,function(lower-expect,sroa,early-cse,simplifycfg,sroa,early-cse,simplifycfg,loop-simplify)'), ann, '-o', fin])
    return open(fin).read()

def demangle_names(names):
    p = subprocess.run(['c++filt'], input='\n'.join(names), stdout=subprocess.PIPE, text=True)
    return dict(zip(names, p.stdout.split('\n')))

def base_name(mangled):
    """plain function name of a mangled free function, or the mangled name itself"""
    m = re.match(r'_Z(?:L)?(\d+)', mangled)
    if m:
        n = int(m.group(1)); s = mangled[m.end():]
        return s[:n]
    return mangled
