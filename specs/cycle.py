"""One clock cycle of garbling / evaluation as a fold over the gates (C03, C04, C26).

Specification functions (uninterpreted, defined by the recursion equations below; c = cycle, i = gate, w = wire):
  V1(c,w)   value class of the wire when only the public values are known: 0, 1, -1 (secret) [-2 on the evaluator's flip-flops and inputs]
  V2(c,w)   final value class; L0/L1(c,w) labels (the evaluator uses L0 only)
  FA/FB(c,i) fan-out counters before gate i in the first / second pass (arrays over gates); red = effect of ReduceFanout
  TI(c,i)   number of tables produced (consumed) before gate i;  TG(c,k) gate of the k-th table produced; GR(c,i,x) its rows
  SEL(c,k)  number of selected tables among the first k; SG(c,m) which table is the m-th selected
The gate functions are functions of their normalised arguments (labels of public inputs do not matter): GG_*, EE_*."""
from fold import *
from z3 import Store as AStore
B128 = BitVecSort(128); Z128 = BitVecVal(0, 128)
FAN = ArraySort(IntSort(), IntSort())
red = Function('red', FAN, IntSort(), FAN)
nnx = Function('non_linear_gates_before', IntSort(), IntSort())
keyid = Function('key_id', *([B128] * 15), IntSort(), IntSort())
_i, _b = IntSort(), B128
KN = Function('known_value', _i, _i, _i, _i)
GGs = [_i, _i, _i, _b, _i, _i, _b, _b, _i, _b, _b]         # type cid gid R key v0 A0 A1 v1 B0 B1
GG_V = Function('gg_value', *GGs, _i); GG_L = [Function('gg_label%d' % k, *GGs, _b) for k in (0, 1)]
GG_E = Function('gg_emits', *GGs, BoolSort()); GG_R = [Function('gg_row%d' % k, *GGs, _b) for k in (0, 1)]
EEs = [_i, _i, _b, _i, _b]                                 # type v0 A v1 B
EE_V = Function('ee_value', *EEs, _i); EE_N = Function('ee_needs_table', *EEs, BoolSort()); EE_L = Function('ee_label', *EEs, _b)
EE_H = Function('ee_label_from_table', *EEs, _i, _i, _i, _b, _b, _b)     # ... cid gid key row0 row1
RND = Function('random_label', _i, _i, _b)                 # label of a gate whose table is missing (cycle, gate)
TT = S('struct.GarbledTable'); BP = S('struct.BlockPair'); KT = S('struct.AES_KEY'); CT = S('struct.GarbledCircuit')
LIN = (6, 9, 12)
nonlin = lambda t: Not(Or(*[t == x for x in LIN]))
nrm = lambda v: If(v < 0, IntVal(-1), v)
sec = lambda v: v < 0
def lab(v, l): return If(v < 0, l, Z128)

# ---------------------------------------------------------------- callee contracts
def keyterm(ex, st, p):
    b = ex.bounds; ex.bounds = False
    r = keyid(*[peek(ex, st, p, KT, 0, i) for i in range(15)], peek(ex, st, p, KT, 1)); ex.bounds = b
    return r
def put(ex, st, p, ty, v, bounds=True):
    b = ex.bounds; ex.bounds = bounds and b
    ex.store(st, p, ty, v); ex.bounds = b
class Known(Contract):
    """GarbleEvalGateKnownValue(v0, v1, type, out)"""
    name = 'GarbleEvalGateKnownValue'; params = ('v0', 'v1', 'type', 'out')
    def apply(self, ex, st, args, tys, ats, ins):
        v = KN(args[2], nrm(args[0]), nrm(args[1])); ex.axiom(st, And(v >= -1, v <= 1)); ex.store(st, args[3], I(16), v); return None
class GGate(Contract):
    """GarbleGate: outputs are functions of the normalised arguments; a table is produced for non-linear gates only"""
    name = 'GarbleGate'
    def apply(self, ex, st, args, tys, ats, ins):
        p0, v0, p1, v1, t, cid, gid, tab, ind, R, key, ol, ov = args
        L = [peek(ex, st, p, BP, k) for p in (p0, p1) for k in (0, 1)]
        a = (t, cid, gid, R, keyterm(ex, st, key), nrm(v0), lab(v0, L[0]), lab(v0, L[1]), nrm(v1), lab(v1, L[2]), lab(v1, L[3]))
        em = GG_E(*a); V = GG_V(*a)
        ex.axiom(st, And(V >= -1, V <= 1, Implies(em, And(nonlin(t), sec(v0), sec(v1), V == -1)), gid >= 0))
        n = ex.load(st, ind, I(64))
        cell = at(ex, tab, TT, n)
        if tab.r.length is not None: ex.oblige(st, 'bounds', 'a produced table fits the table buffer', Implies(em, And(n >= 0, n < tab.r.length)))
        for q, x in (((0, 0), GG_R[0](*a)), ((0, 1), GG_R[1](*a)), ((1,), gid)):
            p = ex.field(cell, TT, q[0]); ty = ex.fields(TT)[q[0]]
            if len(q) == 2: p = ex.gep(p, ty, [ex.zero(), ex.ival(q[1])]); ty = ty[2]
            put(ex, st, p, ty, If(em, x, peek(ex, st, cell, TT, *q)), False)
        ex.store(st, ind, I(64), n + If(em, IntVal(1), IntVal(0)))
        for k in (0, 1): ex.store(st, ex.field(ol, BP, k), VEC, If(sec(V), GG_L[k](*a), ex.fresh('label_of_public', B128)))
        ex.store(st, ov, I(16), V)
        return None
class EGate(Contract):
    """EvalGate: outputs are functions of the normalised arguments; a needed table is taken from position *ind if it carries the gate id"""
    name = 'EvalGate'
    def apply(self, ex, st, args, tys, ats, ins):
        A, v0, B, v1, t, cid, gid, tab, ind, key, ol, ov = args
        a = (t, v0, lab(v0, A), v1, lab(v1, B)); nd = EE_N(*a); V = EE_V(*a)
        n = ex.load(st, ind, I(64)); cell = at(ex, tab, TT, n)
        ex.axiom(st, And(V >= -2, V <= 1, Implies(nd, And(nonlin(t), sec(v0), sec(v1), V == -1))))
        if tab.r.length is not None: ex.oblige(st, 'bounds', 'a table is looked up inside the table buffer', Implies(nd, And(n >= 0, n < tab.r.length)))
        hit = And(nd, peek(ex, st, cell, TT, 1) == gid)
        ex.store(st, ind, I(64), n + If(hit, IntVal(1), IntVal(0)))
        lb = If(nd, If(hit, EE_H(*a, cid, gid, keyterm(ex, st, key), peek(ex, st, cell, TT, 0, 0), peek(ex, st, cell, TT, 0, 1)), RND(cid, gid)), EE_L(*a))
        ex.store(st, ol, VEC, If(sec(V), lb, ex.fresh('label_of_public', B128))); ex.store(st, ov, I(16), V)
        return None
def same_on(S, T, w):
    """arrays agree on the entries red(., w) may look at"""
    j = Int('ag'); return lambda G: ForAll([j], Implies(j <= w - G, Select(S, j) == Select(T, j)))
class Reduce(Contract):
    """ReduceFanout(gc, fanout, wid, bias): fanout := red(fanout, wid); only entries up to wid - bias change, they only decrease and stay non-negative"""
    name = 'ReduceFanout'; params = ('gc', 'fan', 'wid', 'bias')
    def __init__(self, C): self.C = C; self.calls = []
    def apply(self, ex, st, args, tys, ats, ins):
        gc, fan, wid, bias = args; C = self.C()
        ex.oblige(st, 'call', 'ReduceFanout gets the index of the first gate wire', bias == C.G)
        fan = ex.descend(fan, I(32)); lp, ix = ex.leaf(fan); m = ex.getmem(st, fan.r, lp, I(32))
        Sx = ex.fresh('fan', FAN); j = Int('fj')
        ex.axiom(st, ForAll([j], Select(Sx, j) == m.read((j,)), patterns=[Select(Sx, j)]))
        r = red(Sx, wid); g = wid - C.G
        ex.axiom(st, red_frame(Sx, wid, C.G)); ex.axiom(st, red_nonneg(Sx, wid, C))
        w = Base(lambda i: Select(r, i)); wh = Where(lambda i: And(i >= 0, i <= g), w, m); wh.desc = [(('rng', IntVal(0), g + 1),)]
        ex.setmem(st, fan.r, lp, I(32), wh)
        self.calls.append((Sx, wid, len(ex.loopstack)))
        return None
def red_frame(Sx, wid, G):
    j = Int('rf'); r = red(Sx, wid)
    return ForAll([j], Implies(Or(j < 0, j > wid - G), Select(r, j) == Select(Sx, j)), patterns=[Select(r, j)])
def red_nonneg(Sx, wid, C):
    j = Int('rn'); r = red(Sx, wid); q = Int('rq')
    return ForAll([j], And(Select(r, j) <= Select(Sx, j), Implies(Select(Sx, j) >= 0, Select(r, j) >= 0)), patterns=[Select(r, j)])
def congr(ex, st, Sx, T, wid, G, nm='cg'):
    """red looks only at entries <= wid - G: arrays that agree there have the same result there (lemma, unit `red`)"""
    d = ex.fresh(nm, IntSort()); j = Int('cj')
    ex.axiom(st, Or(And(d <= wid - G, d >= 0, Select(Sx, d) != Select(T, d)),
                    ForAll([j], Implies(And(j >= 0, j <= wid - G), Select(red(Sx, wid), j) == Select(red(T, wid), j)), patterns=[Select(red(Sx, wid), j), Select(red(T, wid), j)])))

# ---------------------------------------------------------------- the cycle specification
class Cycle:
    def __init__(self, C, ex, st, garbler, R=None, key=None):
        self.C, self.ex, self.garbler, self.R, self.key = C, ex, garbler, R, key
        F2 = lambda n, s: Function(n, IntSort(), IntSort(), s)
        self.V1, self.V2 = F2('V1', IntSort()), F2('V2', IntSort()); self.L = [F2('L0', B128), F2('L1', B128)][:2 if garbler else 1]
        self.FA, self.FB = F2('FA', FAN), F2('FB', FAN)
        self.TI, self.TG, self.SEL, self.SG = (F2(n, IntSort()) for n in ('TI', 'TG', 'SEL', 'SG'))
        self.GR = [F2('GR0', B128), F2('GR1', B128)]
        self.fan0 = lambda i: ex.getmem(st, C.gates, (4,), C.fty[4]).read((i,))
        i = Int('nx'); s = C.s
        ex.axiom(st, And(nnx(0) == 0, nnx(s.gate) >= 0))
        ex.axiom(st, ForAll([i], Implies(And(i >= 0, i < s.gate), And(nnx(i) >= 0, nnx(i) + If(nonlin(C.type(i)), IntVal(1), IntVal(0)) <= nnx(s.gate), nnx(i + 1) == nnx(i) + If(nonlin(C.type(i)), IntVal(1), IntVal(0)))), patterns=[nnx(i)]))
        ex.axiom(st, ForAll([i], Implies(And(i >= 0, i < s.gate, C.type(i) == 12), Or(C.i1(i) < 0, And(C.i1(i) >= C.IN, C.i1(i) < C.G + i))), patterns=[C.i1(i)]))
        ex.axiom(st, ForAll([i], Implies(And(i >= 0, i < s.gate), self.fan0(i) > 0), patterns=[self.fan0(i)]))
        c, w = Ints('v2c v2w')
        ex.axiom(st, ForAll([c, w], Implies(w < C.G, self.V2(c, w) == self.V1(c, w)), patterns=[self.V2(c, w)]))
    # ---- sources (set by the contract): pbit(c,j), initbit(j), ilab(j,k), nlab(c,j,k), pv(c,w), pl(c,w,k)
    def start(self, c, w):
        """(value, labels) of a wire below the gates at the start of the cycle"""
        C = self.C; s = C.s; j = simplify(w - C.IN); d = simplify(w - C.DF)
        Id, Dd = C.I(d), C.D(d); one = lambda b: If(b, IntVal(1), IntVal(0))
        iv = If(Id == -2, IntVal(0), If(Id == -3, IntVal(1), If(Id < s.p_init, one(self.initbit(Id)), IntVal(-1))))
        dv = If(Dd == -2, IntVal(0), If(Dd == -3, IntVal(1), self.pv(c, Dd)))
        v = If(w < C.IN + s.p_input, one(self.pbit(c, j)), If(w < C.DF, IntVal(-1), If(c == 0, iv, dv)))
        sj = simplify(j - s.p_input)
        ls = [If(w < C.DF, self.nlab(c, sj, k), If(c == 0, self.ilab(simplify(Id - s.p_init), k), self.pl(c, Dd, k))) for k in range(len(self.L))]
        return v, ls
    def defn_start(self, c, w):
        v, ls = self.start(c, w)
        return Implies(And(w >= self.C.IN, w < self.C.G), And(self.V1(c, w) == v, Implies(sec(v), And(*[self.L[k](c, w) == l for k, l in enumerate(ls)]))))
    def start_facts(self, st, c):
        C = self.C; w, q = Ints('sw sc'); V = self.V1; vs = [w] if c is not None else [q, w]; c = q if c is None else c
        ok = lambda lo, hi, f: self.ex.axiom(st, ForAll(vs, Implies(And(w >= lo, w < hi), f), patterns=[V(c, w)]))
        ok(C.IN, C.IN + C.s.p_input, And(V(c, w) >= 0, V(c, w) <= 1)); ok(C.IN + C.s.p_input, C.DF, V(c, w) == -1)
    def value_facts(self, st):
        """lemma (unit `values are 0, 1 or secret`): no wire ever has another value"""
        C = self.C; c, w = Ints('vfc vfw')
        self.ex.axiom(st, ForAll([c, w], Implies(And(c >= 0, w >= C.IN, w < C.WS), self.V2(c, w) <= 1), patterns=[self.V2(c, w)]))
    def inval(self, V, c, i, x):
        C = self.C; w = (C.i0, C.i1)[x](i)
        v = If(w == -2, IntVal(0), If(w == -3, IntVal(1), V(c, w)))
        return If(w >= -3, If(w == -1, IntVal(-1), v), IntVal(-1)) if x else v
    def inlab(self, c, i, x, k):
        C = self.C; w = (C.i0, C.i1)[x](i)
        return If(w >= 0, self.L[k](c, w), Z128)
    def chain(self, R, F, i, pub, s0, s1, E):
        """equations of R = (if pub: F with entry i cleared and the counters of the secret inputs reduced, else E); the reductions it uses"""
        C = self.C; ex = self.ex; n = lambda: ex.fresh('fan', FAN)
        A, A1, A2 = n(), n(), n()
        eqs = [A == AStore(F, i, 0), Implies(s0, A1 == red(A, C.i0(i))), Implies(Not(s0), A1 == A), Implies(s1, A2 == red(A1, C.i1(i))), Implies(Not(s1), A2 == A1), Implies(pub, R == A2), Implies(Not(pub), R == E)]
        return eqs, [(A, C.i0(i)), (A1, C.i1(i))]
    def pass1(self, c, i):
        """equations of gate i in the first pass"""
        C = self.C; a0, a1 = self.inval(self.V1, c, i, 0), self.inval(self.V1, c, i, 1)
        v = KN(C.type(i), nrm(a0), nrm(a1)); pub = v >= 0
        F = AStore(self.FA(c, i), i, self.fan0(i))
        eqs, reds = self.chain(self.FA(c, i + 1), self.FA(c, i), i, pub, sec(a0), sec(a1), F)
        return [self.V1(c, C.G + i) == v, v >= -1, v <= 1] + eqs, reds
    def gargs(self, c, i):
        a0, a1 = self.inval(self.V2, c, i, 0), self.inval(self.V2, c, i, 1)
        l = [lab(a, self.inlab(c, i, x, k)) for x, a in ((0, a0), (1, a1)) for k in range(len(self.L))]
        if self.garbler: return (self.C.type(i), c, i, self.R, self.key, nrm(a0), l[0], l[1], nrm(a1), l[2], l[3]), a0, a1
        return (self.C.type(i), a0, l[0], a1, l[1]), a0, a1
    def evald(self, c, i): return And(Select(self.FB(c, i), i) > 0, sec(self.V1(c, self.C.G + i)))
    def pass2(self, c, i, tab=None):
        C = self.C; a, a0, a1 = self.gargs(c, i); ev = self.evald(c, i); w = C.G + i
        if self.garbler:
            v = GG_V(*a); ls = [f(*a) for f in GG_L]; em = And(ev, GG_E(*a))
            ex = [Implies(em, And(self.TG(c, self.TI(c, i)) == i, *[self.GR[k](c, i) == GG_R[k](*a) for k in (0, 1)]))]
        else:
            v = EE_V(*a); n = self.TI(c, i); nd = EE_N(*a); hit = And(nd, tab(c, n, 2) == i); em = And(ev, hit)
            ls = [If(nd, If(hit, EE_H(*a, c, i, self.key, tab(c, n, 0), tab(c, n, 1)), RND(c, i)), EE_L(*a))]; ex = []
        eqs, reds = self.chain(self.FB(c, i + 1), self.FB(c, i), i, And(ev, v >= 0), sec(a0), sec(a1), self.FB(c, i))
        return ex + eqs + [self.V2(c, w) == If(ev, v, self.V1(c, w)), Implies(And(ev, sec(v)), And(*[f(c, w) == l for f, l in zip(self.L, ls)])),
                     self.TI(c, i + 1) == self.TI(c, i) + If(em, IntVal(1), IntVal(0))], reds
    def select(self, c, k):
        s = Select(self.FB(c, self.C.s.gate), self.TG(c, k)) > 0
        return [self.SEL(c, k + 1) == self.SEL(c, k) + If(s, IntVal(1), IntVal(0)), Implies(s, self.SG(c, self.SEL(c, k)) == k)]
    def base(self, c): return [self.FB(c, 0) == self.FA(c, self.C.s.gate), self.TI(c, 0) == 0, self.SEL(c, 0) == 0]
    def alive(self, st):
        """counting lemma (unit `fan-out counting`): what a live gate, an output, a flip-flop or the terminate wire refers to has been evaluated if it is secret"""
        C = self.C; ex = self.ex; c, i = Ints('alc ali')
        def ok(c, w): return Implies(And(w >= C.G, sec(self.V2(c, w))), self.evald(c, simplify(w - C.G)))
        s = C.s
        for f in (C.i0, C.i1):
            ex.axiom(st, ForAll([c, i], Implies(And(c >= 0, i >= 0, i < s.gate, self.evald(c, i)), ok(c, f(i))), patterns=[MultiPattern(self.FB(c, i), f(i))]))
        for n, f in ((s.output, C.out), (s.dff, C.D)):
            ex.axiom(st, ForAll([c, i], Implies(And(c >= 0, i >= 0, i < n), ok(c, f(i))), patterns=[self.V2(c, f(i))]))
        ex.axiom(st, ForAll([c], Implies(And(c >= 0, C.tid > 0), ok(c, C.tid)), patterns=[self.V2(c, C.tid)]))

class FoldFn(Contract):
    """shared loop invariants; subclasses say which region plays which role and what the current cycle is"""
    garbler = True
    opts = dict(noframe=lambda r, d: r.ety == TT)
    def role(self, r, lp, ty): return None
    def cyc(self, C): return self.cid
    def prep(self, ex, st):
        """circuit and AES key; the sources of the cycle are set by the caller"""
        self.ex = ex; self.C = Circuit(ex, st); ex.axiom(st, self.C.s.gate < (1 << 32))
    def all(self, lo, hi, f, nm='q'):
        w = Int('%s_w' % nm); return ForAll([w], Implies(And(w >= lo, w < hi), f(w)))
    def mem(self, st, key):
        r, ty = self.ex.regions[key]; return self.ex.getmem(st, r, key[1], ty)
    def keys(self, C, role):
        out = []
        for key in sorted(C.wkeys, key=str):
            r, ty = self.ex.regions[key]
            x = self.role(r, key[1], ty)
            if x and x[0] == role: out.append((key, x, r))
        return out
    def find(self, role, k=None):
        """(key) of a region with the role, among the regions known so far"""
        for key, (r, ty) in sorted(self.ex.regions.items(), key=str):
            x = self.role(r, key[1], ty)
            if x and x[0] == role and (k is None or x[1] == k): return key
        return None
    def touch(self, st):
        """make the leaves of the parameters known to the memory"""
    def rd1(self, st, key, i): return self.mem(st, key).read((i,))
    def vals(self, st, lo, hi, V, c):
        key = self.find('val'); m = self.mem(st, key)
        return self.all(lo, hi, lambda w: m.read((w,)) == V(c, w))
    def labels(self, st, lo, hi, c, cond):
        Y = self.Y; out = []
        for k in range(len(Y.L)):
            key = self.find('wire', k)
            if key is None: continue
            m = self.mem(st, key); out.append(self.all(lo, hi, lambda w: Implies(cond(w), m.read((w,)) == Y.L[k](c, w))))
        return And(*out)
    def cnt(self, C):
        for key, x, r in self.keys(C, 'cnt'): return key
        return None
    def table_inv(self, st, key_role, n, gate):
        """entries below n of a table buffer carry the rows and the id of gate(k)"""
        out = []; k = Int('tk'); c = self.c
        for path, val in (((0, 0), 0), ((0, 1), 1), ((1,), 2)):
            pass
        key = None
        r = self.tabreg(key_role)
        p = Ptr(r, (k,))
        rows = [peek(self.ex, st, p, TT, 0, x) == self.Y.GR[x](c, gate(k)) for x in (0, 1)] + [peek(self.ex, st, p, TT, 1) == gate(k)]
        return ForAll([k], Implies(And(k >= 0, k < n), And(*rows)))
    def congruence(self, C, st, reds):
        for T, w in reds: self.ex.axiom(st, red_frame(T, w, self.C.G)); self.ex.axiom(st, red_nonneg(T, w, self.C))
        for Sx, wid, d in self.reduce.calls:
            if d < C.depth + 1: continue
            for T, w in reds:
                if simplify(wid - w).eq(IntVal(0)): congr(self.ex, st, Sx, T, w, self.C.G)
    def loop(self, C, k):
        ex = self.ex; st = C.cur; F = self.C; Y = self.Y
        if C.iv is None: return []
        c = self.cyc(C)
        if c is None: return []
        self.c = c; i = C.iv; s = F.s; j = simplify(i - 1); step = C.stage == 'step'
        fan = lambda n, A: self.all(IntVal(0), n, lambda g: And(self.rd1(st, self.find('fan'), g) == Select(A, g), Select(A, g) >= 0), 'fan')
        if 'GarbleEvalGateKnownValue' in C.calls:
            if step:
                ax, reds = Y.pass1(c, j)
                for f in ax: ex.axiom(st, f)
                self.congruence(C, st, reds)
            return [('wires hold the values known from the public inputs', self.vals(st, F.IN, F.G + i, Y.V1, c)), ('fan-out of the gates so far', fan(i, Y.FA(c, i))), ('within the gates', i <= s.gate)]
        if 'GarbleGate' in C.calls or 'EvalGate' in C.calls:
            ck = self.cnt(C); out = []
            if step:
                ax, reds = Y.pass2(c, j, self.tabread(st) if not self.garbler else None)
                for f in ax: ex.axiom(st, f)
                self.congruence(C, st, reds)
            if C.stage == 'init':
                for f in Y.base(c): ex.axiom(st, f)
            out += [('gates so far have their value', self.vals(st, F.IN, F.G + i, Y.V2, c)), ('later gates hold the value known from the public inputs', self.vals(st, F.G + i, F.WS, Y.V1, c)),
                    ('labels of inputs and flip-flops', self.labels(st, F.IN, F.G, c, lambda w: sec(Y.V1(c, w)))),
                    ('labels of the evaluated gates', self.labels(st, F.G, F.G + i, c, lambda w: And(Y.evald(c, simplify(w - F.G)), sec(Y.V2(c, w))))),
                    ('fan-out of all gates', fan(s.gate, Y.FB(c, i))), ('within the gates', i <= s.gate)]
            if ck is not None:
                n = self.rd1(st, ck, ex.zero())
                out += [('number of tables', n == Y.TI(c, i)), ('no more tables than non-linear gates', And(Y.TI(c, i) >= 0, Y.TI(c, i) <= nnx(i)))]
            if self.garbler:
                kk = Int('tgk')
                out += [('tables so far', self.table_inv(st, 'temp', Y.TI(c, i), lambda k: Y.TG(c, k))), ('tables belong to earlier gates', ForAll([kk], Implies(And(kk >= 0, kk < Y.TI(c, i)), And(Y.TG(c, kk) >= 0, Y.TG(c, kk) < i)), patterns=[Y.TG(c, kk)]))]
            return out
        if self.garbler and self.keys(C, 'tab'):
            ck = self.cnt(C)
            if step:
                for f in Y.select(c, j): ex.axiom(st, f)
            if C.stage == 'init':
                for f in Y.base(c): ex.axiom(st, f)
            m = Int('sgm'); n = Y.SEL(c, i); N = Y.TI(c, s.gate)
            out = [('selected tables so far', self.table_inv(st, 'tab', n, lambda m: Y.TG(c, Y.SG(c, m)))), ('number selected', And(n >= 0, n <= i)), ('within the tables produced', i <= N),
                   ('selected tables are tables of live gates', ForAll([m], Implies(And(m >= 0, m < n), And(Y.SG(c, m) >= 0, Y.SG(c, m) < i, Select(Y.FB(c, s.gate), Y.TG(c, Y.SG(c, m))) > 0)), patterns=[Y.SG(c, m)]))]
            if ck is not None: out.append(('table count', self.rd1(st, ck, ex.zero()) == n))
            return out
        return self.simple(C, c)
    def simple(self, C, c):
        """loops that fill a range of wires, latches, counters or outputs"""
        ex = self.ex; st = C.cur; F = self.C; Y = self.Y; out = []
        fr = getattr(C, 'frames', {}); step = C.stage == 'step'
        for key in sorted(C.wkeys, key=str):
            r, ty = ex.regions[key]; x = self.role(r, key[1], ty)
            if not x or key not in fr: continue
            m = self.mem(st, key)
            for d in fr[key]:
                q = self.range_of(d, x, C)
                if q is None: continue
                lo, hi = q; last = simplify(hi - 1); cut = None
                if x[0] in ('val', 'wire'):
                    if step: ex.axiom(st, Y.defn_start(c, last))
                    f = (lambda w: m.read((w,)) == Y.V1(c, w)) if x[0] == 'val' else (lambda w: Implies(sec(Y.V1(c, w)), m.read((w,)) == Y.L[x[1]](c, w)))
                elif x[0] in ('latchval', 'latch'):
                    if step: ex.axiom(st, Y.defn_start(c, simplify(last + F.DF)))
                    f = (lambda w: m.read((w,)) == Y.V1(c, w + F.DF)) if x[0] == 'latchval' else (lambda w: Implies(sec(Y.V1(c, w + F.DF)), m.read((w,)) == Y.L[x[1]](c, w + F.DF)))
                elif x[0] == 'fan': f = lambda w: m.read((w,)) == Y.fan0(w)
                elif x[0] == 'outv': f = lambda w: m.read(self.oix(c, w)) == Y.V2(c, F.out(w))
                elif x[0] == 'out': f = lambda w: And(*[Implies(sec(Y.V2(c, F.out(w))), m.read(self.oix(c, w) + ((IntVal(k),) if self.garbler else ())) == Y.L[k](c, F.out(w))) for k in range(len(Y.L))])
                else: continue
                out.append(('%s written so far' % {'val': 'wire values', 'wire': 'wire labels', 'latchval': 'latched values', 'latch': 'latched labels', 'fan': 'fan-out counters', 'out': 'output labels', 'outv': 'output values'}[x[0]], self.all(lo, hi, f)))
        return out
    def oix(self, c, w): return (w,)
    def range_of(self, d, x, C):
        ev = lambda y: y(C.iv) if callable(y) else y
        if x[0] == 'out' and self.garbler: d = d[:-1]
        e = d[-1]
        return (ev(e[1]), ev(e[2])) if e[0] == 'rng' else (e[1], e[1] + 1) if e[0] == 'pt' else None
    def callees(self):
        self.reduce = Reduce(lambda: self.C)
        return [Known(), GGate(), EGate(), self.reduce]

class Low(FoldFn):
    """GarbleLowMem / EvaluateLowMem: one cycle"""
    def setup(self, ex, st, fn):
        self.prep(ex, st); F = self.C; s = F.s; g = self.garbler
        def arr(n, ety, ln, shape=None, rows=None):
            r = Region(n, ety, ln, 'param')
            if shape: r.extra['shape'] = shape; r.extra['rows'] = rows
            return r
        self.secn = s.g_input + s.e_input; self.seci = s.g_init + s.e_init; self.cid = ex.nn(Int('cid')); ex.axiom(st, self.cid >= 0)
        W = BP if g else VEC; two = [IntVal(2)]
        R = self.regs = dict(wires=arr('wires', W, F.WS), vals=arr('wires_val', I(16), F.WS), latch=arr('dff_latch', W, s.dff), latchv=arr('dff_latch_val', I(16), s.dff), fan=arr('fanout', I(32), s.gate),
            tab=arr('garbled_tables', TT, nnx(s.gate)), cnt=arr('garbled_table_ind', I(64), ex.ival(1)), tl=arr('terminate_label', W, ex.ival(1)), tv=arr('terminate_val', I(16), ex.ival(1)), key=arr('AES_Key', KT, ex.ival(1)),
            outv=arr('output_vals', I(16), s.output))
        if g: R['temp'] = arr('garbled_tables_temp', TT, nnx(s.gate))
        R['out'] = arr('output_labels', VEC, None if g else s.output, two if g else None, s.output)
        R['ilab'] = arr('init_labels', VEC, None if g else self.seci, two if g else None, self.seci)
        R['nlab'] = arr('input_labels', VEC, None if g else self.secn, two if g else None, self.secn)
        P = {k: Ptr(r, (ex.zero(),)) for k, r in R.items()}
        bi, pi = bn_region(ex, 'p_init'); bn, pn = bn_region(ex, 'p_input', [s.p_input])
        mi, mn = ex.getmem(st, bi, (), ('i', 1)), ex.getmem(st, bn, (), ('i', 1))
        self.R = BitVec('R', 128) if g else None
        Y = self.Y = Cycle(F, ex, st, g, self.R, keyterm(ex, st, P['key']))
        il, nl = ex.getmem(st, R['ilab'], (), VEC), ex.getmem(st, R['nlab'], (), VEC)
        Y.initbit = lambda j: mi.read((j,)); Y.pbit = lambda c, j: mn.read((c, j))
        Y.ilab = (lambda j, k: il.read((j, IntVal(k)))) if g else (lambda j, k: il.read((j,)))
        Y.nlab = (lambda c, j, k: nl.read((j, IntVal(k)))) if g else (lambda c, j, k: nl.read((j,)))
        v0 = ex.getmem(st, R['vals'], (), I(16)); L0 = [ex.getmem(st, R['wires'], lp, VEC) for lp in self.wl()]
        for lp in self.wl(): ex.getmem(st, R['latch'], lp, VEC); ex.getmem(st, R['tl'], lp, VEC)
        ex.getmem(st, R['latchv'], (), I(16)); ex.getmem(st, R['fan'], (), I(32)); ex.getmem(st, R['outv'], (), I(16)); ex.getmem(st, R['out'], (), VEC); ex.getmem(st, R['cnt'], (), I(64)); ex.getmem(st, R['tv'], (), I(16))
        Y.pv = lambda c, w: v0.read((w,)); Y.pl = lambda c, w, k: L0[k].read((w,))
        w = Int('sw')
        ex.axiom(st, ForAll([w], Implies(And(w >= F.IN + s.p_input, w < F.DF), v0.read((w,)) == -1), patterns=[v0.read((w,))]))
        Y.start_facts(st, self.cid)
        Y.alive(st)
        self.P = P
        return [F.gc, pi, pn, P['ilab'], P['nlab'], *([P['temp']] if g else []), P['tab'], P['cnt'], *([self.R] if g else []), P['key'], self.cid, Int('connfd'), P['wires'], P['vals'], P['latch'], P['latchv'], P['fan'], P['tl'], P['tv'], P['out'], P['outv']]
    def wl(self): return ((0,), (1,)) if self.garbler else ((),)
    def role(self, r, lp, ty):
        R = self.regs; k = lp[0] if lp else 0
        for n, nm in (('vals', 'val'), ('latchv', 'latchval'), ('fan', 'fan'), ('tab', 'tab'), ('outv', 'outv'), ('out', 'out')):
            if r is R[n]: return (nm, 0)
        if r is R['wires']: return ('wire', k)
        if r is R['latch']: return ('latch', k)
        if self.garbler and r is R['temp']: return ('temp', 0)
        if ty == I(64) and (r is R['cnt'] or r.kind not in ('param', 'global')): return ('cnt', 0)
    def tabreg(self, n): return self.regs[n]
    def tabread(self, st):
        st0 = self.st0
        def f(c, n, x):
            p = Ptr(self.regs['tab'], (n,))
            return peek(self.ex, st0, p, TT, 1) if x == 2 else peek(self.ex, st0, p, TT, 0, x)
        return f
    def pre(self, k): self.st0 = k.old; return []
    def mods(self, k): return [('region', self.regs[n]) for n in self.regs if n not in ('ilab', 'nlab', 'key') and (n != 'tab' or self.garbler)]
    def lemmas(self, k): return []
    def post(self, k):
        ex = self.ex; st = k.new; F = self.C; Y = self.Y; c = self.c = self.cid; s = F.s
        T = lambda p, ty, *path: peek(ex, st, p, ty, *path)
        n = T(self.P['cnt'], I(64)); N = Y.TI(c, s.gate); r = []
        if self.garbler:
            m = Int('pm')
            r += [('the number of tables handed over is the number of live tables', n == Y.SEL(c, N)),
                  ('the tables handed over are the rows of the selected live gates, in order', self.table_inv(st, 'tab', Y.SEL(c, N), lambda m: Y.TG(c, Y.SG(c, m))))]
        else: r += [('the number of tables consumed', n == N)]
        r += [('every wire has its value', self.vals(st, F.IN, F.WS, Y.V2, c)),
              ('every evaluated secret gate has its label', self.labels(st, F.G, F.WS, c, lambda w: And(Y.evald(c, simplify(w - F.G)), sec(Y.V2(c, w))))),
              ('every secret input and flip-flop has its label', self.labels(st, F.IN, F.G, c, lambda w: sec(Y.V1(c, w))))]
        ov = self.mem(st, self.find('outv')); ol = self.mem(st, self.find('out')); j = Int('oj')
        lk = lambda q: And(*[Implies(sec(Y.V2(c, F.out(q))), ol.read((q, IntVal(x)) if self.garbler else (q,)) == Y.L[x](c, F.out(q))) for x in range(len(Y.L))])
        r += [('every output has the value of its wire', self.all(IntVal(0), s.output, lambda q: ov.read((q,)) == Y.V2(c, F.out(q)))),
              ('every secret output has the label of its wire', self.all(IntVal(0), s.output, lk)),
              ('the terminate wire is handed over', Implies(F.tid > 0, And(T(self.P['tv'], I(16)) == Y.V2(c, F.tid), *[Implies(sec(Y.V2(c, F.tid)), (T(self.P['tl'], BP, x) if self.garbler else T(self.P['tl'], VEC)) == Y.L[x](c, F.tid)) for x in range(len(Y.L))])))]
        return r
class GLow(Low): name = 'GarbleLowMem'
class ELow(Low): name = 'EvaluateLowMem'; garbler = False
def lowreg(c):
    r = Registry(); return r.add(*BN_BITS(), *c.callees(), Keep(c.name))

# ---------------------------------------------------------------- all cycles in one function (high memory footprint)
from term import GTerm, ETerm
from driver import E as EVT, same_ptr
class Rec(Contract):
    """a callee contract; notes which arrays the caller passes (this identifies the caller's buffers by what it does with them)"""
    def __init__(self, inner, note): self.inner, self.note, self.name = inner, note, inner.name
    def apply(self, ex, st, args, tys, ats, ins):
        r = self.inner.apply(ex, st, args, tys, ats, ins); self.note(args); return r
class Announce(Contract):
    """the two transfers of a cycle: the number of tables, then exactly that many tables"""
    def __init__(self, F, snd): self.F, self.snd = F, snd; self.name = 'SendData' if snd else 'RecvData'
    def apply(self, ex, st, args, tys, ats, ins):
        fd, p, n = args; F = self.F; T = tget(ex, st); f = ex.fresh('io_fail', BoolSort()); fail_flag(ex, st, f); c = F.curc if F.curc is not None else IntVal(0)
        N = F.Y.TI(c, F.C.s.gate); sel = F.Y.SEL(c, N)
        if is_num(n) and n.as_long() == 8:
            if self.snd:
                ex.oblige(st, 'call', 'the number of tables announced is the number of live tables', ex.load(st, p, I(64)) == sel)
                tset(ex, st, If(f, T, EVT('count', T, c)))
            else:
                ex.store(st, p, I(64), If(f, ex.fresh('partial', IntSort()), F.rcvd(T))); ex.axiom(st, Or(f, F.rcvd(T) >= 0)); ex.gset(st, 'cnt', F.rcvd(T))
                tset(ex, st, If(f, T, EVT('count', T, c)))
            return If(f, IntVal(-1), IntVal(0))
        if not isinstance(p, Ptr): raise Unsupported('transfer of %r' % (p,))
        if p.r.ety is None: ex.set_type(p.r, TT)
        if p.r.ety != TT: raise Unsupported('bulk transfer of something else than tables')
        if self.snd:
            F.c = c
            ex.oblige(st, 'call', 'exactly the announced tables are sent', n == sel * 48)
            ex.oblige(st, 'call', 'the tables sent are the rows of the selected live gates, in order', F.table_inv_at(st, p, sel, lambda m: F.Y.TG(c, F.Y.SG(c, m))))
        else:
            k = ex.gget(st, 'cnt'); q = p.idx[-1]
            ex.oblige(st, 'call', 'exactly the announced tables are received', n == k * 48)
            ex.oblige(st, 'bounds', 'the received tables fit the table buffer', And(q >= 0, q + k <= p.r.length))
            ex.oblige(st, 'call', 'the tables are stored from the start of the table buffer', q == 0)
            for lp, ty, g in (((0, '*'), VEC, lambda i, x: If(x == 0, F.tabF[0](c, i), F.tabF[1](c, i))), ((1,), I(32), lambda i: F.tabG(c, i))):
                old = ex.getmem(st, p.r, lp, ty)
                w = Where(lambda i, *x: And(Not(f), i >= 0, i < k), Base(g), old); w.desc = [(('rng', IntVal(0), k),) + (('any',),) * (len(lp) - 1)]
                ex.setmem(st, p.r, lp, ty, w)
        tset(ex, st, If(f, T, EVT('tables', T, c)))
        return If(f, IntVal(-1), IntVal(0))
class NNX(Contract):
    name = 'NumOfNonXor'
    def __init__(self, C): self.C = C
    def apply(self, ex, st, args, tys, ats, ins): return ex.nn(nnx(self.C().s.gate))
class KeySetup(Contract):
    """AESSetEncryptKey(key, 128, &k): the schedule is a function of the key (its body: C19)"""
    name = 'AESSetEncryptKey'
    def __init__(self, F): self.F = F
    def apply(self, ex, st, args, tys, ats, ins):
        F = self.F; p = args[2]; kp = args[0]
        b = ex.load(st, kp, VEC)
        ex.oblige(st, 'call', 'the key schedule is made from the global key', And(b == F.gkey, args[1] == 128))
        for i in range(15): put(ex, st, ex.gep(ex.field(p, KT, 0), ex.fields(KT)[0], [ex.zero(), ex.ival(i)]), VEC, Function('schedule%d' % i, B128, B128)(b), False)
        put(ex, st, ex.field(p, KT, 1), I(32), Function('rounds', B128, IntSort())(b), False)
        return IntVal(0)
class High(FoldFn):
    """GarbleHighMem / EvaluateHighMem: all cycles"""
    params = ('gc',)
    def ghost_init(self, ex): return {'T': T0, 'failed': BoolVal(False), 'cnt': IntVal(0)}
    def setup(self, ex, st, fn):
        self.prep(ex, st); F = self.C; s = F.s; g = self.garbler
        self.valr = self.wirer = self.fanr = self.tempr = None; self.curc = None
        self.secn = s.g_input + s.e_input; self.seci = s.g_init + s.e_init
        def arr(n, ety, shape):
            r = Region(n, ety, None, 'param')
            if shape: r.extra['shape'] = shape
            return r
        two = [IntVal(2)] if g else []
        R = self.regs = dict(ilab=arr('init_labels', VEC, two), nlab=arr('input_labels', VEC, two + [self.secn]), out=arr('output_labels', VEC, two + [s.output]), outv=arr('output_vals', I(16), [s.output]))
        P = {k: Ptr(r, (ex.zero(),)) for k, r in R.items()}
        ccr = Region('clock_cycles', I(64), ex.ival(1), 'param'); self.ccp = Ptr(ccr, (ex.zero(),)); self.cc0 = ex.nn(peek(ex, st, self.ccp, I(64))); ex.axiom(st, self.cc0 >= 0)
        self.period = ex.nn(Int('terminate_period')); ex.axiom(st, self.period >= 0)
        if not g: R['ilab'].length = self.seci
        bi, pi = bn_region(ex, 'p_init'); bn, pn = bn_region(ex, 'p_input', [s.p_input])
        mi, mn = ex.getmem(st, bi, (), ('i', 1)), ex.getmem(st, bn, (), ('i', 1))
        self.R = BitVec('R', 128) if g else None; self.gkey = BitVec('global_key', 128)
        kt = keyid(*[Function('schedule%d' % i, B128, B128)(self.gkey) for i in range(15)], Function('rounds', B128, IntSort())(self.gkey))
        Y = self.Y = Cycle(F, ex, st, g, self.R, kt)
        il, nl = ex.getmem(st, R['ilab'], (), VEC), ex.getmem(st, R['nlab'], (), VEC)
        Y.initbit = lambda j: mi.read((j,)); Y.pbit = lambda c, j: mn.read((c, j))
        Y.ilab = (lambda j, k: il.read((j, IntVal(k)))) if g else (lambda j, k: il.read((j,)))
        Y.nlab = (lambda c, j, k: nl.read((c, j, IntVal(k)))) if g else (lambda c, j, k: nl.read((c, j)))
        Y.pv = lambda c, w: Y.V2(simplify(c - 1), w); Y.pl = lambda c, w, k: Y.L[k](simplify(c - 1), w)
        for n, ty in (('out', VEC), ('outv', I(16))): ex.getmem(st, R[n], (), ty)
        Y.start_facts(st, None); Y.alive(st); Y.value_facts(st)
        self.tabF = [Function('received_row%d' % x, IntSort(), IntSort(), B128) for x in (0, 1)]; self.tabG = Function('received_gid', IntSort(), IntSort(), IntSort())
        self.TD = Function('trace_' + self.name, IntSort(), Trace)
        ex.axiom(st, self.TD(0) == T0)
        return [F.gc, pi, pn, P['ilab'], P['nlab'], self.gkey, *([self.R] if g else []), self.ccp, self.period, Int('connfd'), P['out'], P['outv']]
    def rcvd(self, T): return mi_(got(T))
    def role(self, r, lp, ty):
        R = self.regs; k = lp[0] if lp else 0
        if r is R['outv']: return ('outv', 0)
        if r is R['out']: return ('out', 0)
        if r is self.valr: return ('val', 0)
        if r is self.wirer: return ('wire', k)
        if r is self.fanr: return ('fan', 0)
        if r is self.tempr: return ('temp', 0)
        if ty == I(64) and r.kind == 'alloca': return ('cnt', 0)
        if r.kind != 'heap' or self.valr is None: return None
        if r.ety == TT: return ('tab', 0)
        if ty == I(16): return ('latchval', 0)
        if ty == VEC and r.ety in (BP, VEC): return ('latch', k)
    def tabreg(self, n):
        if n == 'temp': return self.tempr
        for key, (r, ty) in self.ex.regions.items():
            if self.role(r, key[1], ty) == ('tab', 0): return r
    def table_inv(self, st, key_role, n, gate): return self.table_inv_at(st, Ptr(self.tabreg(key_role), (IntVal(0),)), n, gate)
    def table_inv_at(self, st, p, n, gate):
        k = Int('tk'); c = self.c; q = at(self.ex, p, TT, k)
        rows = [peek(self.ex, st, q, TT, 0, x) == self.Y.GR[x](c, gate(k)) for x in (0, 1)] + [peek(self.ex, st, q, TT, 1) == gate(k)]
        return ForAll([k], Implies(And(k >= 0, k < n), And(*rows)))
    def tabread(self, st):
        n = self.rcvd(self.TD(self.c))
        return lambda c, k, x: If(k < self.rcvd(self.TD(c)), self.tabG(c, k), IntVal(-1)) if x == 2 else self.tabF[x](c, k)
    def oix(self, c, w): return (c, w)
    def cyc(self, C): return C.parent.iv if C.depth == 1 and C.parent is not None else None
    def callees(self):
        def k(a): self.valr = a[3].r
        def g(a): self.tempr = a[7].r; self.wirer = a[11].r
        def e(a): self.wirer = a[10].r
        def f(a): self.fanr = a[1].r
        self.reduce = Reduce(lambda: self.C)
        return [Rec(Known(), k), Rec(GGate(), g), Rec(EGate(), e), Rec(self.reduce, f), NNX(lambda: self.C), KeySetup(self), Announce(self, self.garbler), GTerm(), ETerm()]
    def checked(self, c): return And(self.period != 0, self.C.tid > 0, c % self.period == 0)
    def step(self, T, c):
        """the messages of a cycle: (trace after, decision)"""
        T = EVT('tables', EVT('count', T, c), c); t = GTerm() if self.garbler else ETerm(); v, l = self.Y.V2(c, self.C.tid), self.Y.L[0](c, self.C.tid)
        return If(self.checked(c), t.step(T, v, l), T), And(self.checked(c), t.result(T, v, l))
    def outs(self, st, n):
        F, Y = self.C, self.Y; ov = self.mem(st, self.find('outv')); ol = self.mem(st, self.find('out')); q, j = Ints('oc oj'); g = self.garbler
        h = And(q >= 0, q < n, j >= 0, j < F.s.output)
        lk = And(*[Implies(sec(Y.V2(q, F.out(j))), ol.read((q, j, IntVal(x)) if g else (q, j)) == Y.L[x](q, F.out(j))) for x in range(len(Y.L))])
        return ForAll([q, j], Implies(h, ov.read((q, j)) == Y.V2(q, F.out(j)))), ForAll([q, j], Implies(h, lk))
    def gids(self, st, lo, hi):
        m = self.ex.getmem(st, self.tabreg('tab'), (1,), I(32)); k = Int('gk')
        return ForAll([k], Implies(And(k >= lo, k < hi), m.read((k,)) == -1))
    def fills(self, C):
        """a loop before the first cycle sets values to SECRET, table ids to `none`"""
        ex = self.ex; st = C.cur; out = []
        for key in sorted(C.wkeys, key=str):
            r, ty = ex.regions[key]
            if r.kind != 'heap' or ty not in (I(16), I(32)): continue
            m = self.mem(st, key)
            for d in getattr(C, 'frames', {}).get(key, [] if r.ety != TT else [None]):
                q = self.range_of(d, ('fill', 0), C) if d else (C.start, C.iv)
                if q: out.append(('%s initialised so far' % ('values' if ty == I(16) else 'table ids'), self.all(q[0], q[1], lambda w: m.read((w,)) == -1)))
        return out
    def loop(self, C, k):
        ex = self.ex; st = C.cur; F = self.C; Y = self.Y
        if C.iv is None: return []
        if C.depth == 0 and not any(n in C.calls for n in ('SendData', 'RecvData')): return self.fills(C)
        if C.depth == 0:
            c = C.iv; last = simplify(c - 1); j = Int('jt'); self.curc = c
            if C.stage == 'step':
                ex.axiom(st, self.TD(c) == self.step(self.TD(last), last)[0]); self.curc = last
            s = F.s; self.c = last
            out = [('no failure so far', Not(ex.gget(st, 'failed'))), ('messages in order', tget(ex, st) == self.TD(c)), ('cycle count unchanged', peek(ex, st, self.ccp, I(64)) == self.cc0), ('within the requested cycles', c <= self.cc0),
                   ('no earlier cycle terminated', ForAll([j], Implies(And(j >= 0, j < c), Not(self.step(self.TD(j), j)[1]))))]
            o1, o2 = self.outs(st, c)
            m = self.mem(st, self.find('val'))
            out += [('output values of the cycles so far', o1), ('output labels of the cycles so far', o2), ('wires have the values of the previous cycle', Or(c == 0, self.vals(st, F.IN, F.WS, Y.V2, last))),
                    ('secret inputs are secret', self.all(F.IN + s.p_input, F.DF, lambda w: m.read((w,)) == -1)),
                    ('labels of the previous cycle', Or(c == 0, And(self.labels(st, F.IN, F.G, last, lambda w: sec(Y.V1(last, w))), self.labels(st, F.G, F.WS, last, lambda w: And(Y.evald(last, simplify(w - F.G)), sec(Y.V2(last, w)))))))]
            if not self.garbler: out.append(('no table is left over', self.gids(st, IntVal(0), nnx(s.gate))))
            return out
        return FoldFn.loop(self, C, k)
    def simple(self, C, c):
        out = FoldFn.simple(self, C, c)
        if not self.garbler:
            fr = getattr(C, 'frames', {})
            for key, x, r in self.keys(C, 'tab'):
                if key not in fr or key[1] != (1,): continue
                for d in fr[key]:
                    q = self.range_of(d, x, C)
                    if q: out.append(('tables cleared so far', self.gids(C.cur, *q)))
        return out
    def mods(self, k): return [('cell', self.ccp, I(64)), ('region', self.regs['out']), ('region', self.regs['outv'])]
    def lemmas(self, k):
        N = peek(self.ex, k.new, self.ccp, I(64)); return [self.TD(N) == self.step(self.TD(N - 1), N - 1)[0]]
    def post(self, k):
        ex = self.ex; st = k.new; N = peek(ex, st, self.ccp, I(64)); ok = k.result == 0; j = Int('jp')
        o1, o2 = self.outs(st, N)
        return [('the result is success or failure', Or(k.result == 0, k.result == -1)), ('a failed exchange is reported', Implies(ex.gget(st, 'failed'), k.result == -1)),
                ('every output of every cycle run has the value of its wire', Implies(ok, o1)), ('every secret output of every cycle run has the label of its wire', Implies(ok, o2)),
                ('the messages of the cycles run were exchanged, in order', Implies(ok, tget(ex, st) == If(self.cc0 == 0, T0, self.TD(N)))),
                ('the run stops at the first checked cycle whose terminate wire is true, else after all cycles', Implies(ok, And(N <= self.cc0, Implies(N < self.cc0, And(N > 0, self.step(self.TD(N - 1), N - 1)[1]))))),
                ('no earlier cycle terminated', Implies(ok, ForAll([j], Implies(And(j >= 0, j < N - 1), Not(self.step(self.TD(j), j)[1])))))] + \
               ([('success unless an exchange failed', Implies(Not(ex.gget(st, 'failed')), ok))] if self.garbler else [])
class GHigh(High): name = 'GarbleHighMem'
class EHigh(High): name = 'EvaluateHighMem'; garbler = False; opts = dict(noframe=lambda r, d: r.ety == TT and d == 0)
