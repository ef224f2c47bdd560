"""Well-formed circuits as data, the ideal (plaintext) semantics of a circuit, and the contract of the plaintext evaluator (C05)."""
from chan import *
from chan import Keep
GATE = S('struct.GarbledGate')
gop = Function('gate_function', IntSort(), BoolSort(), BoolSort(), BoolSort())   # value of GateOperator, defined by its own unit
OPS = {8: lambda a, b: And(a, b), 4: lambda a, b: And(a, Not(b)), 7: lambda a, b: Not(And(a, b)), 11: lambda a, b: Not(And(a, Not(b))), 14: lambda a, b: Or(a, b),
       13: lambda a, b: Or(a, Not(b)), 1: lambda a, b: Not(Or(a, b)), 2: lambda a, b: Not(Or(a, Not(b))), 6: lambda a, b: Xor(a, b), 9: lambda a, b: Not(Xor(a, b)), 12: lambda a, b: Not(a)}
def optable(t, a, b):
    r = BoolVal(False)
    for k, f in OPS.items(): r = If(t == k, f(a, b), r)
    return r
class GateOp(Contract):
    name = 'GateOperator'; params = ('t', 'a', 'b')
    def setup(self, ex, st, fn): return [Int('type'), Bool('input0'), Bool('input1')]
    def pre(self, k): return [('a supported gate type', Or(*[k.t == x for x in OPS]))] if not k.call else []
    def post(self, k): return [('the value of the gate is its truth function', k.result == (gop(k.t, k.a, k.b) if k.call else optable(k.t, k.a, k.b)))]

class Circuit:
    """a well-formed circuit: gate i writes wire G+i; every reference is a constant, an input, a flip-flop or an earlier gate"""
    def __init__(self, ex, st, low=0):
        self.ex = ex; self.gc = circuit(ex); gc = self.gc
        L = Region('gates', GATE, None, 'param'); r = gc.r
        A = {n: Region('circuit_' + n, I(64), None, 'param') for n in ('outputs', 'D', 'I')}
        P0 = lambda R: (lambda *i: Ptr(R, (ex.zero(),)))
        for f, R in ((10, L), (11, A['outputs']), (12, A['D']), (13, A['I'])): r.ptr_shape[(f,)] = P0(R)
        self.s = s = Sizes(ex, st, gc)
        L.length = s.gate; A['outputs'].length = s.output; A['D'].length = A['I'].length = s.dff
        self.init = s.p_init + s.g_init + s.e_init
        self.inp = s.p_input + s.g_input + s.e_input
        self.IN = self.init; self.DF = self.IN + self.inp; self.G = self.DF + s.dff; self.WS = self.G + s.gate
        for t in (self.init, self.inp, self.DF, self.G, self.WS): ex.nn(t)
        G = self.G
        L.init[(2,)] = Base(lambda i: G + i, 'gate.output')
        g = lambda f: ex.getmem(st, L, (f,), self.fty[f])
        self.fty = {i: t for i, t in enumerate(ex.fields(GATE))}
        self.i0, self.i1, self.type = (lambda i: g(0).read((i,))), (lambda i: g(1).read((i,))), (lambda i: g(3).read((i,)))
        self.out = lambda i: ex.getmem(st, A['outputs'], (), I(64)).read((i,))
        self.D = lambda i: ex.getmem(st, A['D'], (), I(64)).read((i,))
        self.I = lambda i: ex.getmem(st, A['I'], (), I(64)).read((i,))
        self.gates = L; self.arr = A
        ex.getmem(st, L, (2,), self.fty[2])
        self.tid = s.terminate_id
        i = Int('wf'); C = lambda w: Or(w == -2, w == -3)
        R = lambda lo, hi, x: And(x >= lo, x < hi)
        def all_(n, f, body): ex.axiom(st, ForAll([i], Implies(R(0, n, i), body(i)), patterns=[f(i)]))
        all_(s.gate, self.i0, lambda i: Or(C(self.i0(i)), R(self.IN, self.G + i, self.i0(i))))
        all_(s.gate, self.i1, lambda i: Or(C(self.i1(i)), R(self.IN, self.G + i, self.i1(i)), self.type(i) == 12))
        all_(s.gate, self.type, lambda i: Or(*[self.type(i) == t for t in OPS]))
        all_(s.output, self.out, lambda i: R(self.IN, self.WS, self.out(i)))
        all_(s.dff, self.D, lambda i: Or(C(self.D(i)), R(self.IN, self.WS, self.D(i))))
        all_(s.dff, self.I, lambda i: Or(C(self.I(i)), R(0, self.init, self.I(i))))
        ex.axiom(st, And(self.tid >= 0, Or(self.tid == 0, R(self.IN, self.WS, self.tid)))); ex.nn(self.tid)
    def const(self, w, v): return If(w == -2, BoolVal(False), If(w == -3, BoolVal(True), v))

class Ideal:
    """the ideal value P(c, w) of wire w in cycle c, from six input bit strings; `defn(c, w)` is its definition at one wire"""
    P = Function('ideal', IntSort(), IntSort(), BoolSort())
    def __init__(self, C, bits): self.C = C; self.bits = bits       # bits[name](c, i): bit i of `name` in cycle c
    def initbit(self, w):
        s = self.C.s; b = self.bits
        return If(w < s.p_init, b['p_init'](IntVal(0), w), If(w < s.p_init + s.g_init, b['g_init'](IntVal(0), w - s.p_init), b['e_init'](IntVal(0), w - s.p_init - s.g_init)))
    def inbit(self, c, j):
        s = self.C.s; b = self.bits
        return If(j < s.p_input, b['p_input'](c, j), If(j < s.p_input + s.g_input, b['g_input'](c, j - s.p_input), b['e_input'](c, j - s.p_input - s.g_input)))
    def rhs(self, c, w):
        C, P = self.C, self.P
        j = simplify(w - C.IN); d = simplify(w - C.DF); g = simplify(w - C.G)
        i0, i1, t = C.i0(g), C.i1(g), C.type(g)
        gate = gop(t, C.const(i0, P(c, i0)), If(t == 12, BoolVal(False), C.const(i1, P(c, i1))))
        dff = If(c == 0, C.const(C.I(d), self.initbit(C.I(d))), C.const(C.D(d), P(simplify(c - 1), C.D(d))))
        return If(w < C.DF, self.inbit(c, j), If(w < C.G, dff, gate))
    def defn(self, c, w): return Implies(And(w >= self.C.IN, w < self.C.WS, c >= 0), self.P(c, w) == self.rhs(c, w))

class BNBin(Contract):
    """BN_bin2bn: the value of an all-zero byte string is zero (nothing else is used)"""
    name = 'BN_bin2bn'
    def apply(self, ex, st, args, tys, ats, ins):
        p, n, bn = args; p = ex.descend(p, I(8)); bn = bn_one(ex, bn)
        lp, ix = ex.leaf(p); m = ex.getmem(st, p.r, lp, I(8)); j = Int('zb')
        nd = 1 + len(bn.r.extra.get('shape', ()))
        f = ex.fresh_fn('bin', *([IntSort()] * nd), BoolSort()); vs = [Int('zc%d' % q) for q in range(nd)]
        setall(ex, st, bn, lambda *i: f(*i[-nd:]))
        ex.assume(st, Implies(ForAll([j], Implies(And(j >= 0, j < n), m.read(ix[:-1] + (ix[-1] + j,)) == 0)), ForAll(vs, Not(f(*vs)), patterns=[f(*vs)])))
        return bn
class Atoi(Contract):
    name = 'atoi'
    def __init__(self, C): self.C = C
    def apply(self, ex, st, args, tys, ats, ins):
        ex.note('the .map file names existing wires'); v = ex.fresh('map_index', IntSort()); ex.axiom(st, And(v >= 0, v < self.C().WS)); return ex.nn(v)
def rng_of(d, cur):
    """(lo, hi) of a one-dimensional range descriptor"""
    ev = lambda x: x(cur) if callable(x) else x
    return (ev(d[-1][1]), ev(d[-1][2])) if d[-1][0] == 'rng' else (d[-1][1], d[-1][1] + 1) if d[-1][0] == 'pt' else None

class Plain(Contract):
    name = 'EvalauatePlaintext'
    params = ('file', 'gc', 'p_init', 'g_init', 'e_init', 'p_input', 'g_input', 'e_input', 'cc', 'period', 'outputs')
    def ghost_init(self, ex): return {}
    def setup(self, ex, st, fn):
        self.ex = ex; C = self.C = Circuit(ex, st); s = C.s
        bn = {}; a = []
        for n in ('p_init', 'g_init', 'e_init', 'p_input', 'g_input', 'e_input'):
            r, p = bn_region(ex, n, [getattr(s, n)] if n.endswith('input') else None); a.append(p)
            m = ex.getmem(st, r, (), ('i', 1))
            bn[n] = (lambda c, i, m=m: m.read((c, i))) if n.endswith('input') else (lambda c, i, m=m: m.read((i,)))
        self.ideal = Ideal(C, bn)
        ccr = Region('clock_cycles', I(64), ex.ival(1), 'param'); self.ccp = Ptr(ccr, (ex.zero(),)); self.cc0 = ex.nn(peek(ex, st, self.ccp, I(64))); ex.axiom(st, self.cc0 >= 0)
        self.period = ex.nn(Int('terminate_period')); ex.axiom(st, self.period >= 0)
        self.br, self.bp = bn_region(ex, 'outputs_bn', [s.output])
        pr = Region('outputs', PTR, ex.ival(1), 'param'); bp = self.bp; pr.ptr_shape[()] = lambda *i: bp
        return [Handle(Int('file')), C.gc, *a, self.ccp, self.period, Ptr(pr, (ex.zero(),))]
    def axioms(self, k): return []
    # ---- specification
    def checked(self, c): return And(self.period != 0, self.C.tid > 0, c % self.period == 0)
    def stops(self, c): return And(self.checked(c), self.ideal.P(c, self.C.tid))
    def outs(self, st, upto):
        """output cells of cycles < upto(c, j) hold the ideal value, the others are 0"""
        ex = self.ex; m = ex.getmem(st, self.br, (), ('i', 1)); c, j = Ints('oc oj'); C = self.C
        return ForAll([c, j], Implies(And(c >= 0, j >= 0, j < C.s.output), m.read((c, j)) == And(upto(c, j), self.ideal.P(c, C.out(j)))))
    def wires_ok(self, m, dims, c, lo, hi, off=0, h=None):
        w = Int('ww'); ix = tuple(dims) + (w,)
        return ForAll([w], Implies(And(w >= lo, w < hi), m.read(ix) == If(self.ideal.P(c, simplify(w + off)), IntVal(1), IntVal(0))))
    def byte_regions(self, C):
        for (rid, lp) in sorted(C.wkeys, key=str):
            r, ty = self.ex.regions[(rid, lp)]
            if ty == I(8) and r.kind == 'heap' and lp == (): yield (rid, lp), r
    def loop(self, C, k):
        ex = self.ex; st = C.cur; F = self.C; P = self.ideal
        if C.iv is None: return []
        out = []
        top = C.depth == 0
        if top and not any(r.ety == ('i', 1) for r in C.written.values()): return []
        if not top and (C.depth != 1 or C.parent is None or C.parent.iv is None): return []
        c = C.iv if top else C.parent.iv
        if top:
            self.wires = None
            if C.stage == 'step':
                w = None
            for key, r in self.byte_regions(C):
                if r.length is None or not prove_eq(r.length, F.WS): continue
                m = ex.getmem(st, r, (), I(8)); self.wires = r
                out.append(('wires hold the ideal values of the previous cycle', Or(c == 0, self.wires_ok(m, (), simplify(c - 1), F.IN, F.WS))))
            j = Int('jt')
            return out + [('outputs of the cycles so far', self.outs(st, lambda q, j: q < c)), ('cycle count unchanged', peek(ex, st, self.ccp, I(64)) == self.cc0), ('within the requested cycles', c <= self.cc0),
                          ('no earlier cycle terminated', ForAll([j], Implies(And(j >= 0, j < c), Not(self.stops(j)))))]
        fr = getattr(C, 'frames', {})
        for key, r in self.byte_regions(C):
            off = IntVal(0) if prove_eq(r.length, F.WS) else F.DF if prove_eq(r.length, F.s.dff) else None
            if off is None or key not in fr: continue
            for d in fr[key]:
                x = rng_of(d, C.iv)
                if x is None: continue
                if C.stage == 'step': ex.axiom(st, P.defn(c, simplify(x[1] - 1 + off)))
                out.append(('%s written so far hold the ideal values' % ('wires' if off is not F.DF else 'flip-flop latches'), self.wires_ok(ex.getmem(st, r, (), I(8)), (), c, x[0], x[1], off)))
        if self.br.id in C.written and not self.byte_regions_any(C):
            out.append(('outputs so far', self.outs(st, lambda q, j: Or(q < c, And(q == c, j < C.iv)))))
        return out
    def byte_regions_any(self, C): return any(True for _ in self.byte_regions(C))
    def mods(self, k): return [('cell', self.ccp, I(64)), ('region', self.br)]
    def post(self, k):
        ex = self.ex; st = k.new; N = peek(ex, st, self.ccp, I(64)); ok = k.result == 0; j = Int('jp')
        return [('the result is success or failure', Or(k.result == 0, k.result == -1)),
                ('every output bit of every cycle run is the ideal value, every other bit is 0', Implies(ok, self.outs(st, lambda c, j: c < N))),
                ('the run stops at the first checked cycle whose terminate wire is 1, else after all cycles', Implies(ok, And(N <= self.cc0, Implies(N < self.cc0, And(N > 0, self.stops(N - 1)))))),
                ('no earlier cycle terminated', Implies(ok, ForAll([j], Implies(And(j >= 0, j < N - 1), Not(self.stops(j))))))]
def prove_eq(a, b):
    if a is None or b is None: return False
    d = simplify(a - b)
    return is_num(d) and d.as_long() == 0
def reg(c):
    r = Registry(); r.opaque_lib = True
    return r.add(*[x for x in BN_BITS()], GateOp(), BNBin(), Atoi(lambda: c.C), Keep(c.name))
