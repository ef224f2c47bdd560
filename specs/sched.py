"""C14: the topological sort and the renumbering of the netlist. TopologicalSortVisit (recursive, by its own contract), TopologicalSort and SortNetlist."""
from stl import *
from chan import *
from chan import Keep
RC = S('class.ReadCircuit'); VL = S('class.std::vector'); L64 = I(64); RG = S('class.ReadGate'); MK = I(32)
reach = Function('reach', IntSort(), IntSort(), BoolSort()); CYC = Bool('netlist_has_a_cycle')
SZF = dict(p_init=4, g_init=5, e_init=6, p_input=7, g_input=8, e_input=9, dff=10, gate=11, output=12)
class SchedReg(STL):
    """strings only feed the log and the error message: they are left alone"""
    ghost_pos = True
    def lookup(self, m):
        if m not in self.by and build.base_name(m) not in self.by and parse_str(m): return None
        return super().lookup(m)
    def external(self, ex, st, name, args, tys, ins): return Registry.external(self, ex, st, name, args, tys, ins)
def rd(ex, st, p, v, ty, *rest):
    """contents leaf of the object at p as a function of the index"""
    lp, ix = ex.leaf(cell(p, v)); lp = lp + ('*',) + tuple(rest)
    m = ex.getmem(st, p.r, lp, ty); n = sum(1 for x in rest if x == '*')
    return lambda i, *j: m.read(ix + (i,) + j)
class V:
    """a vector's contents in a state"""
    def __init__(self, ex, st, p, T, pos=False):
        self.len = vlen(ex, st, p); self.p = p
        if T == RG: self.inp = rd(ex, st, p, data(T), L64, 0, '*'); self.out = rd(ex, st, p, data(T), L64, 1); self.type = rd(ex, st, p, data(T), I(16), 2)
        else: self.at = rd(ex, st, p, data(T), T)
        if pos: self.pos = rd(ex, st, p, POS, L64)
def vmods(ex, p, T, pos=False):
    p = one(p); out = []
    for lp, ix, t, q in vleaves(ex, p, T): out.append(('leaf', p.r, lp, t))
    lp, ix = ex.leaf(cell(p, LEN)); out.append(('leaf', p.r, lp, L64))
    if pos: lp, ix = ex.leaf(cell(p, POS)); out.append(('leaf', p.r, lp + ('*',), L64))
    return out
def fld(ex, p, k): return Ptr(p.r, p.idx, p.path + (('f', k),))
class Circ:
    """sizes and lists of the circuit object"""
    def __init__(self, ex, st, rc):
        rc = one(rc); self.rc = rc
        for n, f in SZF.items():
            v = peek(ex, st, rc, RC, f); setattr(self, n, v); ex.nn(v); ex.axiom(st, v >= 0)
        self.term = peek(ex, st, rc, RC, 13)
        self.base = ex.simp(self.p_init + self.g_init + self.e_init + self.p_input + self.g_input + self.e_input + self.dff); self.N = ex.simp(self.base + self.gate)
        self.gates = V(ex, st, fld(ex, rc, 1), RG); self.dffs = V(ex, st, fld(ex, rc, 2), RG); self.outs = V(ex, st, fld(ex, rc, 0), L64); self.ts = V(ex, st, fld(ex, rc, 3), L64)
    def wf(self, full=False):
        w, k, i = Ints('wf_w wf_k wf_i'); g = self.gates
        out = [x >= 0 for x in (self.p_init, self.g_init, self.e_init, self.p_input, self.g_input, self.e_input, self.dff, self.gate, self.output)] + [self.gates.len == self.gate, self.N < 2**31, ForAll([w, k], Implies(And(w >= 0, w < self.gate, k >= 0, k < 2), g.inp(w, k) < self.N))]
        if full:
            d = self.dffs
            out += [d.len == self.dff, self.outs.len == self.output,
                    ForAll([w, k], Implies(And(w >= 0, w < self.dff, k >= 0, k < 2), d.inp(w, k) < self.N)), ForAll([w], Implies(And(w >= 0, w < self.dff), And(d.out(w) >= 0, d.out(w) < self.base))),
                    ForAll([i], Implies(And(i >= 0, i < self.output), And(self.outs.at(i) >= 0, self.outs.at(i) < self.N))), self.term >= 0, self.term < self.N]
        return out
    def graph(self):
        """reach is the transitive closure of gate -> input"""
        a, b, c, k = Ints('ga gb gc gk'); g = self.gates
        return [ForAll([a, k], Implies(And(a >= self.base, a < self.N, k >= 0, k < 2, g.inp(a - self.base, k) >= 0), reach(a, g.inp(a - self.base, k))), patterns=[g.inp(a - self.base, k)]),
                ForAll([a, b, c], Implies(And(reach(a, b), reach(b, c)), reach(a, c)), patterns=[MultiPattern(reach(a, b), reach(b, c))]),
                ForAll([a], Implies(reach(a, a), CYC), patterns=[reach(a, a)])]
def inv(C, M, S):
    """sorted list and marks agree, and every sorted gate comes after its inputs"""
    w, p, k = Ints('iw ip ik'); B, N = C.base, C.N; g = C.gates
    return [('sizes', And(M.len == N, S.len >= 0)),
            ('marks are valid', ForAll([w], Implies(And(w >= 0, w < N), And(M.at(w) >= 0, M.at(w) <= 2)))),
            ('the sorted list holds finished wires, each at its position', ForAll([p], Implies(And(p >= 0, p < S.len), And(S.at(p) >= 0, S.at(p) < N, M.at(S.at(p)) == 2, S.pos(S.at(p)) == p)))),
            ('every finished wire is in the sorted list', ForAll([w], Implies(And(w >= 0, w < N, M.at(w) == 2), And(S.pos(w) >= 0, S.pos(w) < S.len, S.at(S.pos(w)) == w)))),
            ('inputs and flip-flops are finished', ForAll([w], Implies(And(w >= 0, w < B), M.at(w) == 2))),
            ('a finished gate comes after its inputs', ForAll([w, k], Implies(And(w >= B, w < N, M.at(w) == 2, k >= 0, k < 2, g.inp(w - B, k) >= 0), And(M.at(g.inp(w - B, k)) == 2, S.pos(g.inp(w - B, k)) < S.pos(w)))))]
class Visit(Contract):
    name = unit = 'TopologicalSortVisit'; params = ('rc', 'marks', 'cur', 'sorted', 'loop')
    def setup(self, ex, st, fn):
        self.ex = ex; mk = lambda n, t: Ptr(Region(n, t, ex.ival(1), 'param'), (ex.zero(),))
        self.cur = Int('cur')
        return [mk('circuit', RC), mk('marks', VL), self.cur, mk('sorted_list', VL), mk('loop', VL)]
    def ghost_init(self, ex): return dict(vf=BoolVal(False))
    def after(self, k): k.ex.gset(k.st, 'vf', simplify(Or(k.ex.gget(k.st, 'vf'), k.result == -1)))
    def V(self, k, st): return Circ(k.ex, st, k.rc), V(k.ex, st, one(k.marks), MK), V(k.ex, st, one(k.sorted), L64, True), V(k.ex, st, one(k.loop), L64)
    def pre(self, k):
        C, M, S, P = self.V(k, k.old); t = Int('pt')
        return [('circuit well-formed', conj(C.wf())), ('wire exists', k.cur < C.N)] + inv(C, M, S) + [('wires under way depend on this one', Implies(k.cur >= 0, ForAll([t], Implies(And(t >= 0, t < C.N, M.at(t) == 1), reach(t, k.cur)))))]
    def axioms(self, k): return self.V(k, k.old)[0].graph()
    def mods(self, k):
        ex = k.ex; return vmods(ex, k.marks, MK) + vmods(ex, k.sorted, L64, True) + vmods(ex, k.loop, L64, True)
    def post(self, k):
        C, M, S, P = self.V(k, k.old); C2, M2, S2, P2 = self.V(k, k.new); w, p = Ints('qw qp')
        ok = k.result != -1
        return [('reports success or failure', Or(k.result == 0, k.result == -1)), ('fails only on a cycle', Or(ok, CYC)), ('a failure names a wire of the cycle', Or(ok, P2.len > 0)), ('the loop list only grows', P2.len >= P.len), ('marks keep their size', M2.len == M.len)] + \
            [(n, Implies(ok, f)) for n, f in inv(C, M2, S2)] + [
            ('the list only grows', Implies(ok, And(S2.len >= S.len, ForAll([p], Implies(And(p >= 0, p < S.len), S2.at(p) == S.at(p)))))),
            ('finished wires stay where they are', Implies(ok, ForAll([w], Implies(And(w >= 0, w < C.N, M.at(w) == 2), And(M2.at(w) == 2, S2.pos(w) == S.pos(w)))))),
            ('wires under way are the same', Implies(ok, ForAll([w], Implies(And(w >= 0, w < C.N), (M2.at(w) == 1) == (M.at(w) == 1))))),
            ('the wire is finished', Implies(ok, Or(k.cur < 0, M2.at(k.cur) == 2)))]
def ordered(C, S):
    """the sorted list is a permutation of all wires with the inputs first and every gate after its inputs"""
    w, p, k = Ints('ow op ok'); B, N = C.base, C.N; g = C.gates
    return [('every wire is sorted exactly once', And(S.len == N, ForAll([p], Implies(And(p >= 0, p < N), And(S.at(p) >= 0, S.at(p) < N, S.pos(S.at(p)) == p))), ForAll([w], Implies(And(w >= 0, w < N), And(S.pos(w) >= 0, S.pos(w) < N, S.at(S.pos(w)) == w))))),
            ('inputs and flip-flops keep their numbers', ForAll([w], Implies(And(w >= 0, w < B), And(S.pos(w) == w, S.at(w) == w)))),
            ('every gate comes after its inputs', ForAll([w, k], Implies(And(w >= B, w < N, k >= 0, k < 2, g.inp(w - B, k) >= 0), S.pos(g.inp(w - B, k)) < S.pos(w))))]
def counters(ex, C, st, v):
    """local integer variables kept in memory that the loop changes: they count along with v"""
    out = []
    for k in C.wkeys:
        r, ty = ex.regions[k]
        if r.kind == 'alloca' and k[1] == () and ty == L64: out.append(ex.getmem(st, r, (), ty).read((ex.zero(),) * r.dims) == v)
    return out
class TopSort(Contract):
    name = unit = 'TopologicalSort'; params = ('rc', 'sorted', 'rcs')
    def ghost_init(self, ex): return dict(vf=BoolVal(False))
    def setup(self, ex, st, fn):
        self.ex = ex; mk = lambda n, t: Ptr(Region(n, t, ex.ival(1), 'param'), (ex.zero(),))
        self.args = [mk('circuit', RC), mk('sorted_list', VL), Ptr(Region('names', S('class.ReadCircuitString'), ex.ival(1), 'param'), (ex.zero(),))]
        return self.args
    def pre(self, k): return [('circuit well-formed', conj(Circ(k.ex, k.old, k.rc).wf()))]
    def axioms(self, k): return Circ(k.ex, k.old, k.rc).graph()
    def mods(self, k): return vmods(k.ex, k.sorted, L64, True)
    def after(self, k): k.ex.sorted_p = one(k.sorted)
    def lemmas(self, k):
        """finite pigeonhole: an injective list of N wires out of N names them all; a list naming N wires has at least N entries"""
        C = Circ(k.ex, k.old, k.rc); S = V(k.ex, k.new, k.sorted, L64, True); w, p = Ints('lw lp'); N = C.N
        inj = ForAll([p], Implies(And(p >= 0, p < S.len), And(S.at(p) >= 0, S.at(p) < N, S.pos(S.at(p)) == p)))
        sur = ForAll([w], Implies(And(w >= 0, w < N), And(S.pos(w) >= 0, S.pos(w) < S.len, S.at(S.pos(w)) == w)))
        k.ex.note('finite pigeonhole principle')
        return [Implies(inj, S.len <= N), Implies(And(inj, S.len == N), sur), Implies(sur, S.len >= N)]
    def loop(self, C, k):
        ex = self.ex; st = C.cur; c = Circ(ex, k.old, k.rc); S = V(ex, st, k.sorted, L64, True); mk = self.marks(st, C)
        if mk is None: return []
        M = V(ex, st, mk, MK); w, p = Ints('tw tp'); N, B = c.N, c.base
        if C.depth == 0 and C.ordinal == 0:
            iv = S.len; cnt = [C.iv == iv] if C.iv is not None else counters(ex, C, st, iv)
            return [('list of inputs', And(*cnt, ForAll([w], Implies(And(w >= 0, w < iv), And(S.at(w) == w, S.pos(w) == w, M.at(w) == 2))))), ('others unmarked', And(M.len == N, iv >= 0, iv <= B, ForAll([w], Implies(And(w >= iv, w < N), M.at(w) == 0))))]
        base = inv(c, M, S) + [('no wire under way', ForAll([w], Implies(And(w >= 0, w < N), M.at(w) != 1))), ('inputs first', And(S.len >= B, ForAll([w], Implies(And(w >= 0, w < B), And(S.at(w) == w, S.pos(w) == w)))))]
        vf = ex.gget(st, 'vf')
        if C.iv is not None and C.step == 1: base = base + [('gates scanned so far are marked', ForAll([w], Implies(And(w >= B, w < B + C.iv - C.start, w < N), M.at(w) != 0)))]
        return [('a failed visit means a cycle', Implies(vf, CYC))] + ([('no visit failed', Not(vf))] if C.depth == 0 else []) + [(n, Or(vf, f)) for n, f in base]
    def marks(self, st, C):
        for (rid, lp) in st.mem:
            r = self.ex.regions[(rid, lp)][0]
            if lp and repr(lp[0]) .find('$data') >= 0 and self.ex.regions[(rid, lp)][1] == MK: return Ptr(r, (self.ex.zero(),) * r.dims)
        return None
    def post(self, k):
        C = Circ(k.ex, k.old, k.rc); S = V(k.ex, k.new, one(k.sorted), L64, True); ok = k.result != -1
        return [('reports success or failure', Or(k.result == 0, k.result == -1)), ('fails only on a cycle', Or(ok, CYC))] + [(n, Implies(ok, f)) for n, f in ordered(C, S)]
class SortNet(Contract):
    """SortNetlist: every gate gets a new number after its inputs' numbers; every reference is renumbered alike; the schedule lists the gates by new number"""
    name = unit = 'SortNetlist'; params = ('rc', 'rcs')
    def ghost_init(self, ex): return dict(vf=BoolVal(False))
    def setup(self, ex, st, fn):
        self.ex = ex; mk = lambda n, t: Ptr(Region(n, t, ex.ival(1), 'param'), (ex.zero(),))
        return [mk('circuit', RC), mk('names', S('class.ReadCircuitString'))]
    def pre(self, k): return [('circuit well-formed', conj(Circ(k.ex, k.old, k.rc).wf(True)))]
    def axioms(self, k): return Circ(k.ex, k.old, k.rc).graph()
    def mods(self, k):
        ex = k.ex; rc = one(k.rc); out = []
        for n, T in ((0, L64), (1, RG), (2, RG), (3, L64)): out += vmods(ex, fld(ex, rc, n), T)[:(-1 if n != 3 else None)]
        lp, ix = ex.leaf(fld(ex, rc, 13)); return out + [('leaf', rc.r, lp, L64)]
    def locals_(self, C, st):
        """the sorted list and the reverse list"""
        sp = getattr(self.ex, 'sorted_p', None); R = None
        for k in st.mem:
            r, ty = self.ex.regions[k]
            if r.kind == 'alloca' and k[1] and repr(k[1][0]).find('$data') >= 0 and ty == L64 and (sp is None or r is not sp.r): R = Ptr(r, (self.ex.zero(),) * r.dims)
        return sp, R
    def loop(self, C, k):
        ex = self.ex; st = C.cur; o = Circ(ex, k.old, k.rc); c = Circ(ex, st, k.rc); sp, Rp = self.locals_(C, st); iv = C.iv
        if sp is None or Rp is None or iv is None: return []
        S_ = V(ex, st, sp, L64, True); R = V(ex, st, Rp, L64); i, k_ = Ints('si sk'); B, N = o.base, o.N; out = []
        keys = {(ex.regions[x][0].id, repr(x[1])) for x in C.wkeys}
        def wr(p, T): return any((p.r.id, repr(lp)) in keys for lp, ix, t, q in vleaves(ex, p, T))
        new = lambda x: If(x < 0, x, S_.pos(x))
        ok = lambda lo, hi, f: ForAll([i], Implies(And(i >= lo, i < hi), f(i)))
        if wr(Rp, L64): out.append(('reverse list', And(R.len == N, ForAll([i], Implies(And(i >= 0, i < N, S_.pos(i) < iv), R.at(i) == S_.pos(i))))))
        if wr(fld(ex, c.rc, 3), L64): out.append(('schedule so far', And(c.ts.len == o.gate, ok(0, iv - C.start, lambda j: c.ts.at(j) == S_.at(B + j) - B))))
        for nm, p, old, cur, n in (('flip-flops', fld(ex, c.rc, 2), o.dffs, c.dffs, o.dff), ('gates', fld(ex, c.rc, 1), o.gates, c.gates, o.gate)):
            if not wr(p, RG): continue
            out.append((nm + ' renumbered so far', ForAll([i, k_], Implies(And(i >= 0, i < iv, i < n, k_ >= 0, k_ < 2), And(cur.inp(i, k_) == new(old.inp(i, k_)), cur.out(i) == (S_.pos(B + i) if nm == 'gates' else S_.pos(old.out(i))))))))
            out.append((nm + ' not renumbered yet', ForAll([i, k_], Implies(And(i >= iv, i < n, k_ >= 0, k_ < 2), And(cur.inp(i, k_) == old.inp(i, k_), Implies(BoolVal(nm != 'gates'), cur.out(i) == old.out(i)))))))
            out.append((nm + ' keep their types', ForAll([i], Implies(And(i >= 0, i < n), cur.type(i) == old.type(i)))))
        if wr(fld(ex, c.rc, 0), L64):
            out.append(('outputs renumbered so far', ForAll([i], Implies(And(i >= 0, i < o.output), c.outs.at(i) == If(i < iv, S_.pos(o.outs.at(i)), o.outs.at(i))))))
        return out
    def post(self, k):
        ex = self.ex; o = Circ(ex, k.old, k.rc); c = Circ(ex, k.new, k.rc); g, j, i = Ints('pg pj pi'); B, N = o.base, o.N; ok = k.result != -1
        num = lambda w: If(w < B, w, c.gates.out(w - B)); new = lambda w: If(w < 0, w, num(w)); q = lambda n, x, *f: ForAll([x], Implies(And(x >= 0, x < n), And(*f)))
        inputs = lambda cur, old, n: ForAll([g, j], Implies(And(g >= 0, g < n, j >= 0, j < 2), cur.inp(g, j) == new(old.inp(g, j))))
        return [('reports success or failure', Or(k.result == 0, k.result == -1)), ('fails only on a cycle: every acyclic netlist is accepted', Or(ok, CYC))] + [(n, Implies(ok, f)) for n, f in [
            ('every gate gets a number among the gates', q(o.gate, g, c.gates.out(g) >= B, c.gates.out(g) < N)),
            ('the schedule lists the gate with each number: the renumbering is a permutation', And(c.ts.len == o.gate, q(o.gate, i, c.ts.at(i) >= 0, c.ts.at(i) < o.gate, c.gates.out(c.ts.at(i)) == B + i), q(o.gate, g, c.ts.at(c.gates.out(g) - B) == g))),
            ('gate inputs are renumbered', inputs(c.gates, o.gates, o.gate)), ('every gate comes after its inputs', ForAll([g, j], Implies(And(g >= 0, g < o.gate, j >= 0, j < 2), c.gates.inp(g, j) < c.gates.out(g)))),
            ('flip-flop inputs are renumbered', inputs(c.dffs, o.dffs, o.dff)), ('flip-flop outputs keep their numbers', q(o.dff, g, c.dffs.out(g) == o.dffs.out(g))),
            ('gate and flip-flop types stay', And(q(o.gate, g, c.gates.type(g) == o.gates.type(g)), q(o.dff, g, c.dffs.type(g) == o.dffs.type(g)))),
            ('outputs are renumbered, in order', q(o.output, i, c.outs.at(i) == num(o.outs.at(i)))),
            ('the terminate signal is renumbered', c.term == If(o.term == 0, 0, num(o.term)))]]
def schedreg(c): return SchedReg().add(Visit(), TopSort(), Keep('SortNetlist'))
