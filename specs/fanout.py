"""FillFanout, ReduceFanout, NumOfNonXor and the lemmas about them used by the cycle specifications (C26, C03, C04)."""
from cycle import *
from cycle import Store as _S
from vc import Facts
def lem(name, hyps, goal):
    o = Obl(name, 'lemma', Facts(BoolVal(True)), list(hyps), goal); o.where = ''; return o
def ext(ex, st, A, B):
    """extensionality of arrays, instantiated (valid for any k)"""
    k = ex.fresh('ext', IntSort()); ex.axiom(st, Or(A == B, Select(A, k) != Select(B, k)))
def red_defn(C, Sx, w):
    """defining equation of red at (Sx, w)"""
    g = w - C.G; d = AStore(Sx, g, Select(Sx, g) - 1)
    return red(Sx, w) == If(And(g >= 0, g < C.s.gate, Select(Sx, g) > 0), If(Select(Sx, g) == 1, red(red(d, C.i0(g)), C.i1(g)), d), Sx), d
def wf_not(C, ex, st):
    i = Int('nx'); ex.axiom(st, ForAll([i], Implies(And(i >= 0, i < C.s.gate, C.type(i) == 12), Or(C.i1(i) < 0, And(C.i1(i) >= C.IN, C.i1(i) < C.G + i))), patterns=[C.i1(i)]))
class ReduceBody(Contract):
    """ReduceFanout computes red"""
    name = 'ReduceFanout'; params = ('gc', 'fan', 'wid', 'bias')
    def setup(self, ex, st, fn):
        C = self.C = Circuit(ex, st); wf_not(C, ex, st)
        r = self.r = Region('fanout', I(32), C.s.gate, 'param'); self.wid = Int('wid')
        m = self.m0 = ex.getmem(st, r, (), I(32)); self.S0 = ex.fresh('fan0', FAN); j = Int('fj')
        ex.axiom(st, ForAll([j], Select(self.S0, j) == m.read((j,)), patterns=[Select(self.S0, j)]))
        j2 = Int('fk'); ex.axiom(st, ForAll([j2], Select(self.S0, j2) == m.read((j2,)), patterns=[m.read((j2,))]))
        eq, self.d = red_defn(C, self.S0, self.wid); ex.axiom(st, eq)
        self.calls = []
        return [C.gc, Ptr(r, (ex.zero(),)), self.wid, C.G]
    def handles(self, ex): return True
    def apply(self, ex, st, args, tys, ats, ins):
        gc, fan, wid, bias = args; C = self.C
        ex.oblige(st, 'call', 'the gate wire offset is passed on', bias == C.G)
        ex.oblige(st, 'call', 'the recursion goes to an earlier wire', wid < self.wid)
        m = ex.getmem(st, self.r, (), I(32)); Sx = ex.fresh('fan', FAN); j = Int('fj')
        ex.axiom(st, ForAll([j], Select(Sx, j) == m.read((j,)), patterns=[Select(Sx, j)]))
        r = red(Sx, wid); ex.axiom(st, red_frame(Sx, wid, C.G)); ex.axiom(st, red_nonneg(Sx, wid, C))
        prev = self.calls[-1] if self.calls else self.d; ext(ex, st, Sx, prev)
        self.calls.append(r)
        w = Base(lambda i: Select(r, i)); wh = Where(lambda i: And(i >= 0, i <= wid - C.G), w, m); wh.desc = [(('rng', IntVal(0), wid - C.G + 1),)]
        ex.setmem(st, self.r, (), I(32), wh)
    def mods(self, k): return [('region', self.r)]
    def post(self, k):
        ex = k.ex; m = ex.getmem(k.new, self.r, (), I(32)); j = Int('pj'); C = self.C
        return [('the counters become red(counters, wid)', ForAll([j], Implies(And(j >= 0, j < C.s.gate), m.read((j,)) == Select(red(self.S0, self.wid), j))))]
def red_lemmas():
    """frame, non-negativity, congruence of red by strong induction on the wire"""
    ex = new_exec(None, Registry(), 'int'); st = State(); st.gh = dict(ex.ghost_init)
    C = Circuit.__new__(Circuit); G, ng = Ints('G ng'); C.G = G; i0, i1 = Function('in0', IntSort(), IntSort()), Function('in1', IntSort(), IntSort())
    C.i0, C.i1 = i0, i1
    class S_: pass
    C.s = S_(); C.s.gate = ng
    w, g = Int('w'), Int('gg'); Sx, T, Q = Const('S', FAN), Const('T', FAN), Const('Q', FAN); j = Int('j')
    wf = [G >= 0, ng >= 0, ForAll([g], Implies(And(g >= 0, g < ng), And(i0(g) < G + g, i1(g) < G + g)), patterns=[i0(g)]), ForAll([g], Implies(And(g >= 0, g < ng), And(i0(g) < G + g, i1(g) < G + g)), patterns=[i1(g)])]
    def P(A, v): return And(*[ForAll([j], b) for b in PB(A, v, j)])
    def PB(A, v, j):
        r = red(A, v)
        return [Implies(Or(j < 0, j > v - G), Select(r, j) == Select(A, j)), Select(r, j) <= Select(A, j), Implies(Select(A, j) >= 0, Select(r, j) >= 0)]
    eqS, d = red_defn(C, Sx, w); eqT, dT = red_defn(C, T, w); gw = w - G
    r1, rT1 = red(d, i0(gw)), red(dT, i0(gw))
    k = Int('k')
    def IH(A, v): return Implies(v < w, And(*PB(A, v, k)))
    o = [lem('red changes no counter of a later gate, only decreases counters, keeps them non-negative (induction on the wire), part %d' % n, wf + [eqS, IH(d, i0(gw)), IH(r1, i1(gw))], PB(Sx, w, k)[n]) for n in range(3)]
    agree = lambda A, B, v: ForAll([j], Implies(And(j >= 0, j <= v - G), Select(A, j) == Select(B, j)), patterns=[Select(A, j), Select(B, j)])
    CI = lambda A, B, v: Implies(And(v < w, agree(A, B, v)), agree(red(A, v), red(B, v), v))
    F = lambda A, v: And(*[ForAll([j], b, patterns=[Select(red(A, v), j)]) for b in PB(A, v, j)])
    o.append(lem('red looks only at counters up to its wire (induction on the wire)',
                 wf + [eqS, eqT, agree(Sx, T, w), F(d, i0(gw)), F(dT, i0(gw)), F(r1, i1(gw)), F(rT1, i1(gw)), CI(d, dT, i0(gw)), CI(r1, rT1, i1(gw)), k >= 0, k <= gw], Select(red(Sx, w), k) == Select(red(T, w), k)))
    return o, [cover('red induction', wf + [eqS, eqT, gw >= 0, gw < ng, Select(Sx, gw) == 1])]
class NNXBody(Contract):
    """NumOfNonXor counts the non-linear gates"""
    name = 'NumOfNonXor'; params = ('gc',)
    def setup(self, ex, st, fn):
        C = self.C = Circuit(ex, st); i = Int('nx'); ex.axiom(st, nnx(0) == 0)
        ex.axiom(st, ForAll([i], nnx(i + 1) == nnx(i) + If(nonlin(C.type(i)), IntVal(1), IntVal(0)), patterns=[nnx(i + 1)]))
        return [C.gc]
    def loop(self, L, k):
        if L.iv is None: return []
        i = L.iv; C = self.C
        if L.stage == 'step': k.ex.axiom(L.cur, nnx(i) == nnx(i - 1) + If(nonlin(C.type(simplify(i - 1))), IntVal(1), IntVal(0)))
        return [('within the gates', i <= C.s.gate)] + [('count so far', v == nnx(i)) for n, v in sorted(L.phi.items()) if n != L.main[0] and isinstance(v, ExprRef) and v.sort() == IntSort()]
    def post(self, k): return [('the result is the number of non-linear gates', k.result == nnx(self.C.s.gate))]
def nnx_lemmas():
    n, i = Ints('n i'); b = Function('nonlinear', IntSort(), BoolSort()); one = lambda x: If(b(x), IntVal(1), IntVal(0))
    h = [i >= 0, i < n, nnx(i + 1) == nnx(i) + one(i), Implies(i + 1 < n, nnx(i + 1) + one(i + 1) <= nnx(n))]
    u = [i >= 0, nnx(i) >= 0, nnx(i + 1) == nnx(i) + one(i)]
    return [lem('a prefix has no more non-linear gates than the circuit (downward induction)', h, nnx(i) + one(i) <= nnx(n)), lem('counts are non-negative (induction)', u, nnx(i + 1) >= 0)], [cover('nnx', h)]
def value_lemmas():
    """V2 <= 1 everywhere, by induction on (cycle, wire)"""
    v, pv, kn, gg, ee = Ints('v pv kn gg ee'); b = Bool('b'); c, ev = Bools('first evaluated')
    one = If(b, IntVal(1), IntVal(0)); I_, D_ = Ints('I D'); lab_ = Ints('x')
    iv = If(I_ == -2, IntVal(0), If(I_ == -3, IntVal(1), If(Bool('pub'), one, IntVal(-1)))); dv = If(D_ == -2, IntVal(0), If(D_ == -3, IntVal(1), pv))
    return [lem('values below the gates', [pv <= 1, v == If(Bool('p'), one, If(Bool('s'), IntVal(-1), If(c, iv, dv)))], v <= 1),
            lem('values of gates', [kn <= 1, gg <= 1, v == If(ev, gg, kn)], v <= 1)], []
class Fill(Contract):
    """FillFanout: the fan-out of a gate is the number of references to it; fails on a reference to a later gate and on an unused gate"""
    name = 'FillFanout'; params = ('gc',)
    def setup(self, ex, st, fn):
        self.ex = ex; gc = self.gc = circuit(ex); L = self.L = Region('gates', GATE, None, 'param'); A = {n: Region('circuit_' + n, I(64), None, 'param') for n in ('outputs', 'D')}
        P0 = lambda R: (lambda *i: Ptr(R, (ex.zero(),)))
        for f, R in ((10, L), (11, A['outputs']), (12, A['D'])): gc.r.ptr_shape[(f,)] = P0(R)
        s = self.s = Sizes(ex, st, gc); L.length = s.gate; A['outputs'].length = s.output; A['D'].length = s.dff
        self.G = ex.nn(s.p_init + s.g_init + s.e_init + s.p_input + s.g_input + s.e_input + s.dff); G = self.G; ng = s.gate
        g = lambda f: ex.getmem(st, L, (f,), ex.fields(GATE)[f]); m0, m1 = g(0), g(1); self.i0, self.i1 = (lambda i: m0.read((i,))), (lambda i: m1.read((i,)))
        g(4); mo, md = ex.getmem(st, A['outputs'], (), I(64)), ex.getmem(st, A['D'], (), I(64)); self.out, self.D = (lambda i: mo.read((i,))), (lambda i: md.read((i,)))
        i = Int('wf'); self.tid = s.terminate_id
        for n, f in ((s.output, self.out), (s.dff, self.D)): ex.axiom(st, ForAll([i], Implies(And(i >= 0, i < n), f(i) < G + ng), patterns=[f(i)]))
        ex.axiom(st, And(self.tid >= 0, self.tid < G + ng, ng < (1 << 31))); ex.nn(self.tid)
        F2 = lambda n: Function(n, IntSort(), IntSort(), IntSort()); self.RG, self.RD, self.RO = F2('refs_of_gates'), F2('refs_of_flipflops'), F2('refs_of_outputs')
        q = Int('q0'); 
        for R in (self.RG, self.RD, self.RO): ex.axiom(st, ForAll([q], R(0, q) == 0, patterns=[R(0, q)]))
        return [gc]
    def one(self, c): return If(c, IntVal(1), IntVal(0))
    def inc(self, kind, i, g):
        G = self.G
        return self.one(self.i0(i) == G + g) + self.one(self.i1(i) == G + g) if kind == 'g' else self.one((self.D if kind == 'd' else self.out)(i) == G + g)
    def unfold(self, st, R, kind, i):
        g = Int('uf'); self.ex.axiom(st, ForAll([g], R(i + 1, g) == R(i, g) + self.inc(kind, i, g), patterns=[R(i + 1, g)]))
    def total(self, g): return self.RG(self.s.gate, g) + self.RD(self.s.dff, g) + self.RO(self.s.output, g) + self.one(And(self.tid > 0, self.tid == self.G + g))
    def fan(self, st, g): return self.ex.getmem(st, self.L, (4,), self.ex.fields(GATE)[4]).read((g,))
    def earlier(self, i): return And(*[Implies(f(i) >= self.G, f(i) < self.G + i) for f in (self.i0, self.i1)])
    def all(self, lo, hi, f):
        g = Int('ga'); return ForAll([g], Implies(And(g >= lo, g < hi), f(g)))
    def loop(self, C, k):
        ex = self.ex; st = C.cur; s = self.s; i = C.iv
        if i is None: return []
        z = IntVal(0); ng = s.gate
        # which table bounds the loop, in order of appearance
        b = C.bound
        kind = None
        if C.wkeys:
            rd = C.reads if hasattr(C, 'reads') else None
            kind = {str(s.gate): 'g', str(s.dff): 'd', str(s.output): 'o'}.get(str(b))
        base = [('within the range', i <= b)] if b is not None else []
        fk = [q for q in C.wkeys if q[0] == self.L.id and q[1][-1:] == (4,)]
        if kind == 'g' and fk and all(q in getattr(C, 'frames', {}) and not any(c[0] == 'any' for d in C.frames[q] for c in d) for q in fk):
            self.zeroed = True   # writes the counters of its own range only: initialisation
            return base + [('counters are zero so far', self.all(z, i, lambda g: self.fan(st, g) == 0))]
        if kind == 'g':
            if C.stage == 'step': self.unfold(st, self.RG, 'g', simplify(i - 1))
            g = Int('gz')
            return base + [('fan-out of the gates so far', self.all(z, ng if getattr(self, 'zeroed', False) else i, lambda g: self.fan(st, g) == self.RG(i, g))), ('later gates have no reference yet', ForAll([g], Implies(g >= i, self.RG(i, g) == 0))), ('gates so far refer to earlier gates', self.all(z, i, self.earlier))]
        nd, no = (i if kind == 'd' else s.dff), i
        if kind == 'd':
            self.seen_d = True
            if C.stage == 'step': self.unfold(st, self.RD, 'd', simplify(i - 1))
            return base + [('fan-out with the flip-flops so far', self.all(z, ng, lambda g: self.fan(st, g) == self.RG(ng, g) + self.RD(i, g) + self.odone(C, g)))]
        if kind == 'o':
            if C.stage == 'step': self.unfold(st, self.RO, 'o', simplify(i - 1))
            return base + [('fan-out with the outputs so far', self.all(z, ng, lambda g: self.fan(st, g) == self.RG(ng, g) + self.RO(i, g) + self.ddone(C, g)))]
        return base + [('gates so far have a positive fan-out', self.all(z, i, lambda g: self.fan(st, g) > 0))]
    # flip-flops and outputs may be counted in either order
    def order(self, C):
        o = getattr(self, '_order', None)
        if o is None: self._order = o = []
        return o
    def mark(self, C, kind):
        o = self.order(C)
        if kind not in o: o.append(kind)
        return o
    def odone(self, C, g):
        o = self.mark(C, 'd'); return self.RO(self.s.output, g) if 'o' in o and o.index('o') < o.index('d') else IntVal(0)
    def ddone(self, C, g):
        o = self.mark(C, 'o'); return self.RD(self.s.dff, g) if 'd' in o and o.index('d') < o.index('o') else IntVal(0)
    def mods(self, k): return [('leaf', self.L, (4,), self.ex.fields(GATE)[4])]
    def post(self, k):
        st = k.new; z = IntVal(0); ng = self.s.gate; ok = k.result == 0
        return [('the result is success or failure', Or(ok, k.result == -1)), ('every gate refers to earlier gates only', Implies(ok, self.all(z, ng, self.earlier))),
                ('the fan-out of a gate is the number of references to it', Implies(ok, self.all(z, ng, lambda g: self.fan(st, g) == self.total(g)))),
                ('every gate is used', Implies(ok, self.all(z, ng, lambda g: self.fan(st, g) > 0))),
                ('fails only if a gate refers to a later one or is unused', Implies(And(self.all(z, ng, self.earlier), self.all(z, ng, lambda g: self.total(g) > 0)), ok))]
def keepreg(c):
    r = Registry(); r.opaque_lib = True
    return r.add(*([c] if isinstance(c, ReduceBody) else [Keep(c.name)]))
