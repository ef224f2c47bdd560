"""Discharge obligations: z3 in process (forked workers), cvc5 as second back end."""
import os, sys, time, pickle, multiprocessing, subprocess, tempfile, signal
from z3 import *

def to_smt2(ob):
    s = Solver()
    for f in ob.facts.all(): s.add(f)
    for h in ob.hyps: s.add(h)
    s.add(Not(ob.goal))
    return s.to_smt2()

def syms_of(t, cache):
    k = t.get_id()
    if k in cache: return cache[k]
    out = set(); st = [t]; seen = set()
    while st:
        x = st.pop()
        if x.get_id() in seen: continue
        seen.add(x.get_id())
        if is_app(x):
            if x.decl().kind() == Z3_OP_UNINTERPRETED: out.add(x.decl().name())
            st.extend(x.children())
        elif is_quantifier(x): st.append(x.body())
    cache[k] = out
    return out

def _solve_one(ob, timeout, want_model=True, facts=None):
    t = time.time()
    fl = ob.facts.all() if facts is None else facts
    res = 'unknown'; model = None
    # a share of the time for each: the context of this run, then fresh ones with other seeds (what z3 proves at once in one order of terms it may miss in another)
    base = {}; nomb = {'smt.mbqi': False, 'auto_config': False}; ar = {'smt.arith.solver': 2}; text = None
    for share, fresh, conf in ((.2, 0, base), (.12, 0, nomb), (.08, 1, dict(random_seed=7)), (.1, 0, ar), (.08, 1, dict(nomb, random_seed=11)), (.2, 2, dict(random_seed=23)), (.12, 1, dict(nomb, random_seed=5)), (.1, 0, ar)):
        if fresh and text is None: text = to_smt2(ob) if facts is None else ''
        if fresh and not text: continue
        s = Solver(ctx=Context()) if fresh else SimpleSolver() if conf is nomb else Solver()
        for a, b in conf.items():
            try: s.set(a, b)
            except Z3Exception: pass
        s.set('timeout', max(1000, int(timeout * 1000 * share)))
        if fresh:
            try: s.from_string(text)
            except Z3Exception: text = ''; continue
        else:
            for f in fl: s.add(f)
            for h in ob.hyps: s.add(h)
            s.add(Not(ob.goal))
        r = s.check()
        if r == unsat: res = 'proved'; break
        if r == sat:
            res = 'refuted'
            if want_model:
                m = s.model()
                model = [(str(d), str(m[d])[:400]) for d in m.decls()][:400]
            break
    return res, time.time() - t, 'z3-%s' % get_version_string(), model

def _cvc5(ob, timeout):
    t = time.time()
    with tempfile.NamedTemporaryFile('w', suffix='.smt2', delete=False) as f:
        f.write('(set-logic ALL)\n' + to_smt2(ob)); n = f.name
    try:
        p = subprocess.run(['cvc5', '--tlimit=%d' % int(timeout * 1000), '--full-saturate-quant', n], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=timeout + 10)
        out = p.stdout.strip().split('\n')[0] if p.stdout else ''
    except subprocess.TimeoutExpired:
        out = 'timeout'
    finally:
        os.unlink(n)
    r = {'unsat': 'proved', 'sat': 'refuted'}.get(out, 'unknown')
    return r, time.time() - t, 'cvc5', None

def solve_all(obls, timeout=60, jobs=8, second=True, budget=600, retry=True):
    """obls: list of Obl. Forked workers take obligations from a shared counter."""
    if not obls: return
    n = len(obls)
    order = sorted(range(n), key=lambda i: -len(obls[i].hyps))
    ctr = multiprocessing.Value('i', 0)
    pipes = []
    t0 = time.time()
    for w in range(min(jobs, n)):
        r, wfd = os.pipe()
        pid = os.fork()
        if pid == 0:
            os.close(r)
            f = os.fdopen(wfd, 'wb')
            try:
                while True:
                    with ctr.get_lock():
                        i = ctr.value; ctr.value += 1
                    if i >= n: break
                    ob = obls[order[i]]
                    left = budget - (time.time() - t0)
                    if left < 2:
                        pickle.dump((order[i], ('unknown', 0, 'budget', None)), f); f.flush(); continue
                    try:
                        x = _solve_one(ob, min(timeout, left))
                        if x[0] == 'unknown' and second and budget - (time.time() - t0) > 5:
                            y = _cvc5(ob, min(timeout, budget - (time.time() - t0)))
                            if y[0] == 'proved': x = (y[0], x[1] + y[1], y[2], None)
                            elif y[0] == 'refuted': x = ('refuted', x[1] + y[1], y[2], None)
                    except Exception as e:
                        x = ('unknown', 0, 'error %r' % (e,), None)
                    pickle.dump((order[i], x), f); f.flush()
            finally:
                f.close()
                os._exit(0)
        os.close(wfd)
        pipes.append((pid, os.fdopen(r, 'rb')))
    import threading
    def rd(f):
        while True:
            try: i, x = pickle.load(f)
            except EOFError: break
            ob = obls[i]
            ob.res, ob.time, ob.backend, ob.model = x
    ths = [threading.Thread(target=rd, args=(f,)) for _, f in pipes]
    for t in ths: t.start()
    for t in ths: t.join()
    for pid, f in pipes:
        f.close(); os.waitpid(pid, 0)
    lost = [ob for ob in obls if ob.res is None]
    if lost and retry: solve_all(lost, timeout, jobs, second, max(10, budget - (time.time() - t0)), retry=False)
    for ob in obls:
        if ob.res is None: ob.res = 'unknown'; ob.backend = 'worker died'

def check_covers(covers, timeout=10):
    """returns list of vacuous covers (contradictory assumptions)"""
    bad = []
    for name, facts, pc in covers:
        s = Solver(); s.set('timeout', int(timeout * 1000))
        for f in facts: s.add(f)
        for p in pc: s.add(p)
        if s.check() == unsat: bad.append(name)
    return bad
