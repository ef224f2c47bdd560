"""Per-property runner: generate obligations from /repo's current source, discharge, replay on failure, write evidence."""
import os, sys, time, gc, json, shutil, tempfile, subprocess, traceback, importlib
HERE = os.path.dirname(os.path.abspath(__file__)); ROOT = os.path.dirname(HERE)
for p in (HERE, os.path.join(ROOT, 'specs'), os.path.join(ROOT, 'props')):
    if p not in sys.path: sys.path.insert(0, p)
sys.setrecursionlimit(100000)
import build, ir
from mem import Unsupported
import solve as SV
from concurrent.futures import ThreadPoolExecutor

HSRC = ['util/util.cpp', 'util/log.cpp', 'crypto/BN.cpp', 'crypto/OT.cpp', 'crypto/OT_extension.cpp', 'tcpip/tcpip.cpp',
        'garbled_circuit/garbled_circuit.cpp', 'garbled_circuit/garbled_circuit_util.cpp', 'garbled_circuit/garbled_circuit_high_mem.cpp',
        'garbled_circuit/garbled_circuit_low_mem.cpp', 'scd/scd.cpp', 'scd/scd_evaluator.cpp', 'scd/scheduling.cpp', 'scd/parse_netlist.cpp', 'scd/v_2_scd.cpp']

class Ctx:
    def __init__(self, pid, tier, seed):
        self.pid, self.tier, self.seed = pid, tier, seed
        self.tmp = tempfile.mkdtemp(prefix='tgv-%d-' % os.getpid())
        self.mods = {}
        self.t0 = time.time() - float(os.environ.get('TGV_ELAPSED', '0'))  # a rerun after a solver crash shares the time limit
        self.assumptions = []; self.trusted = []; self.functions = []; self.bounded = []
        self.deadline = self.t0 + (780 if tier == 'quick' else 840)
    def left(self): return self.deadline - time.time()
    def assume(self, *s):
        for x in s:
            if x not in self.assumptions: self.assumptions.append(x)
    def trust(self, *s):
        for x in s:
            if x not in self.trusted: self.trusted.append(x)
    def under_contract(self, *s):
        for x in s:
            if x not in self.functions: self.functions.append(x)
    def module(self, reg, srcs=None, key='default', **kw):
        if key not in self.mods:
            d = os.path.join(self.tmp, 'm' + str(len(self.mods))); os.makedirs(d)
            self.mods[key] = ir.parse_module(build.module(srcs or build.SRCS, reg.keep, d, **kw))
        return self.mods[key]
    def harness(self, name, extra=(), srcs=None, flags=()):
        """compile /verif/harness/<name>.cpp with /repo's current sources; returns path of the executable"""
        d = os.path.join(self.tmp, 'h'); os.makedirs(d, exist_ok=True)
        cfg = build.config_dir(d)
        cf = ['g++', '-std=c++11', '-O1', '-g', '-w', '-march=x86-64-v2', '-maes', '-mpclmul', '-fno-access-control', '-I' + build.REPO, '-I' + cfg, '-I' + os.path.join(ROOT, 'harness'), *flags]
        tag = str(abs(hash(tuple(flags))) % 10**8)
        def cc(s, o):
            if not os.path.exists(o): build.run(cf + ['-c', '-o', o, s])
            return o
        jobs = [(os.path.join(build.REPO, s), os.path.join(d, s.replace('/', '_') + tag + '.o')) for s in (srcs or HSRC)]
        jobs.append((os.path.join(ROOT, 'harness', name + '.cpp'), os.path.join(d, name + tag + '.o')))
        with ThreadPoolExecutor(8) as ex: objs = list(ex.map(lambda j: cc(*j), jobs))
        exe = os.path.join(d, name)
        build.run(['g++', *flags, '-o', exe, *objs, '-lboost_program_options', '-lcrypto', '-lrt', '-lpthread', '-ldl'])
        return exe
    def run_harness(self, name, args=(), timeout=120, **kw):
        """returns (violated: bool, text). Harness exit: 0 ok, 1 violation (prints FAIL lines), anything else (crash) counts as a violation of the run too."""
        exe = self.harness(name, **kw)
        wd = os.path.join(self.tmp, 'run'); os.makedirs(wd, exist_ok=True)
        p = subprocess.Popen([exe, *map(str, args)], cwd=wd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors='replace', start_new_session=True)
        try:
            out, _ = p.communicate(timeout=timeout)
            rc = p.returncode
        except subprocess.TimeoutExpired:
            try: os.killpg(p.pid, 9)
            except OSError: pass
            out, _ = p.communicate(); rc = 'timeout'
        try: os.killpg(p.pid, 9)
        except OSError: pass
        return rc, out

class Failure:
    def __init__(self, unit, name, kind, detail): self.unit, self.name, self.kind, self.detail = unit, name, kind, detail
    def __str__(self): return '[%s] %s: %s\n%s' % (self.unit, self.name, self.kind, self.detail)

def describe(ob):
    s = ''
    if ob.model:
        keep = [(a, b) for a, b in ob.model if len(b) < 80][:60]
        s = 'verifier counterexample (verifier-level names):\n' + '\n'.join('  %s = %s' % x for x in keep)
    return ('obligation: %s\nkind: %s\nresult: %s by %s in %.2fs\n' % (ob.name, ob.kind, ob.res, ob.backend, ob.time)) + s

def main(pid, tier):
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    P = importlib.import_module(pid)
    cx = Ctx(pid, tier, seed)
    fails = []; allobl = []; vac = []; units_ok = []
    ngen = 0; per_unit = {}
    solver_s = 0.0
    level = getattr(P, 'LEVEL', 'proof')
    try:
        try:
            units = P.units(cx)
        except Exception as e:
            units = []
            fails.append(Failure('setup', 'bringing the current source within the verifier\'s reach', type(e).__name__, ''.join(traceback.format_exception(e))[-4000:]))
        for name, gen in units:
            try:
                gc.collect(); obls, covers = gen()
                allobl += [(name, o) for o in obls]
                vac += [(name, c) for c in covers]
                per_unit[name] = len(obls)
                if not obls: fails.append(Failure(name, 'obligation generation', 'no obligation was generated', ''))
            except Exception as e:
                fails.append(Failure(name, 'obligation generation for %s' % name, 'could not bring the current source under the contract: %s: %s' % (type(e).__name__, str(e)[:600]), ''.join(traceback.format_exception(e))[-3000:]))
        ts = time.time()
        obls = [o for _, o in allobl]
        todo = [o for o in obls if o.res is None]
        SV.solve_all(todo, timeout=getattr(P, 'TIMEOUT', 60) * (1 if tier == 'quick' else 4), budget=max(30, min(getattr(P, 'BUDGET', 420), cx.left() - 200)))
        solver_s = time.time() - ts
        for name, o in allobl:
            if o.res != 'proved': fails.append(Failure(name, o.name, 'obligation %s' % ('refuted' if o.res == 'refuted' else 'not discharged (%s)' % o.res), describe(o)))
        vacuous = []
        if not fails:
            for (name, c) in vac:
                if SV.check_covers([c], 5): vacuous.append('%s: %s' % (name, c[0]))
            for v in vacuous: fails.append(Failure(v, 'vacuity', 'assumptions contradictory', v))
        # bounded stand-ins (labelled bounded, never counted as proved) and, on failure, replay on the real code
        found = None; bounded_cov = []
        try:
            for nm, fn in getattr(P, 'bounded', lambda cx: [])(cx):
                ok, txt, info = fn()
                bounded_cov.append(dict(name=nm, label='bounded', **info))
                if not ok:
                    found = (found or '') + 'bounded check %s failed on the real code:\n%s\n' % (nm, txt)
        except Exception as e:
            fails.append(Failure('bounded', 'bounded stand-in', type(e).__name__, ''.join(traceback.format_exception(e))[-3000:]))
        replay_info = None
        if fails and not found or (tier == 'thorough' and not found):
            try:
                rp = getattr(P, 'replay', None)
                if rp:
                    bad, txt = rp(cx)
                    replay_info = txt[-3000:]
                    if bad: found = txt
            except Exception as e:
                replay_info = 'replay could not run: ' + ''.join(traceback.format_exception(e))[-3000:]
        nob = len(allobl); nd = sum(1 for _, o in allobl if o.res == 'proved')
        backends = {}
        for _, o in allobl: backends[o.backend] = backends.get(o.backend, 0) + 1
        known = known_findings(pid)
        cov = dict(obligations=nob, discharged=nd, checker_cmd='python3-vt /verif/check.py %s --tier %s' % (pid, tier),
                   trusted_base=['LLVM 18 front end and the passes inline/sroa/early-cse/simplifycfg/loop-simplify', 'VC generator /verif/engine', 'z3 (python API)', 'cvc5'] + cx.trusted,
                   functions_under_contract=cx.functions, obligations_per_unit=per_unit, backends=backends, solver_wall_s=round(solver_s, 2),
                   solver_cpu_s=round(sum(o.time for _, o in allobl), 2), samples=[o.name for _, o in allobl[:6]] + [o.name for _, o in allobl[-6:]],
                   bounded=bounded_cov)
        if nob == 0 and level == 'proof' : cov['obligations'] = 0
        nv = 1 if (fails or found) else 0
        ev = dict(property=pid, tier=tier, seed=seed, level=level, coverage=cov, assumptions=cx.assumptions, wall_s=round(time.time() - cx.t0, 2), violations=nv)
        if hasattr(P, 'evidence'): P.evidence(cx, ev)
        os.makedirs(os.path.join(ROOT, 'evidence'), exist_ok=True)
        json.dump(ev, open(os.path.join(ROOT, 'evidence', pid + '.json'), 'w'), indent=1)
        for k in known: print('KNOWN-FINDING: property=%s %s' % (pid, k))
        print('%s: %d obligations, %d discharged, %d functions under contract, %d bounded stand-ins, %.1fs' % (pid, nob, nd, len(cx.functions), len(bounded_cov), time.time() - cx.t0))
        if nv:
            rp = os.path.join(ROOT, 'evidence', 'replay-%s.txt' % pid)
            with open(rp, 'w') as f:
                f.write('property %s: %d failed obligations\n' % (pid, len(fails)))
                if found: f.write('\n==== failing input on the real code ====\n' + found + '\n')
                elif replay_info: f.write('\n==== replay against the real code found no failing input ====\n' + replay_info + '\n')
                f.write('\n==== failed obligations ====\n')
                for x in fails[:60]: f.write(str(x) + '\n\n')
            for x in fails[:8]: print('  failed: [%s] %s: %s' % (x.unit, x.name, x.kind[:300]))
            print('VIOLATION property=%s replay=%s%s' % (pid, rp, '' if found else ' no-failing-input-found'))
            return 1
        return 0
    finally:
        shutil.rmtree(cx.tmp, ignore_errors=True)

def known_findings(pid):
    out = []
    p = os.path.join(ROOT, 'known_findings.txt')
    if os.path.exists(p):
        for l in open(p):
            if l.startswith('known: property=%s ' % pid): out.append(l.strip().split(' ', 2)[2])
    return out
