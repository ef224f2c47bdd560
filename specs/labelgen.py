"""Label generation: every pair is (fresh random draw, draw ^ R); buffers are large enough for every label of the run (C21)."""
from chan import *
from chan import Keep
B128 = BitVecSort(128)
rnd = Function('random_draw', IntSort(), B128)
class Rnd(Contract):
    name = 'RandomBlock'
    def apply(self, ex, st, args, tys, ats, ins):
        k = ex.gget(st, 'draws'); ex.gset(st, 'draws', k + 1); return rnd(k)
class Gen(Contract):
    """pairs written into caller-supplied buffer"""
    def __init__(self, name, sz): self.name = self.unit = name; self.szf = sz
    params = ('gc', 'labels', 'R')
    def ghost_init(self, ex): return dict(draws=IntVal(0))
    def setup(self, ex, st, fn):
        gc = circuit(ex); self.sz = Sizes(ex, st, gc); self.n = self.szf(self.sz); self.R = BitVec('R', 128)
        self.lr = Region('labels', VEC, None, 'param'); self.lr.extra['shape'] = [IntVal(2)]; self.lr.extra['rows'] = self.n; self.lp = Ptr(self.lr, (ex.zero(),))
        return [gc, self.lp, self.R]
    def mods(self, k): return [('region', self.lr)]
    def loop(self, C, k):
        if C.iv is None or C.depth != 0 or self.lr.id not in C.written: return []
        return pairs(self, C.cur, self.lr, lambda q: q < C.iv, IntVal(0)) + [('one draw per label', k.ex.gget(C.cur, 'draws') == C.iv)]
    def post(self, k):
        return pairs(self, k.new, self.lr, lambda q: q < self.n, IntVal(0)) + [('reports success', k.result == 0)]
def pairs(D, st, r, done, base):
    ex = D.k.ex; m = ex.getmem(st, r, (), VEC); q = Int('qq')
    rd = (lambda j: m.read((q, IntVal(j)))) if r.extra.get('shape') else (lambda j: m.read((2 * q + j,)))
    f = ForAll([q], Implies(And(q >= 0, done(q)), And(rd(0) == rnd(base + q), rd(1) == rd(0) ^ D.R)))
    return [('every pair so far is a fresh draw and the draw ^ R', f)]
class Alloc(Contract):
    """GarbleMakeLabels (pairs generated) / GarbleAllocLabels, EvaluateMakeLabels, EvaluateAllocLabels (buffers only)"""
    def __init__(self, name, garbler, high):
        self.name = self.unit = name; self.garbler, self.high = garbler, high
    def ghost_init(self, ex): return dict(draws=IntVal(0))
    def setup(self, ex, st, fn):
        gc = circuit(ex); self.sz = s = Sizes(ex, st, gc); self.R = BitVec('R', 128); self.cc = ex.nn(Int('clock_cycles')); ex.axiom(st, self.cc >= 0)
        self.out = {}
        for n in ('init_labels', 'input_labels', 'output_labels', 'output_vals'):
            r = Region(n + '_out', PTR, ex.ival(1), 'param'); self.out[n] = Ptr(r, (ex.zero(),))
        a = [gc] + list(self.out.values()) + ([self.R] if self.garbler else []) + ([self.cc] if self.high else [])
        self.params = tuple('a%d' % i for i in range(len(a)))
        self.ninit = s.p_init + s.g_init + s.e_init; self.ninput = s.p_input + s.g_input + s.e_input
        return a
    def need(self, n):
        """(elements needed, element type)"""
        s = self.sz; two = 2 if self.garbler else 1; c = self.cc if self.high else 1
        return {'init_labels': ((s.g_init + s.e_init) * two, VEC), 'input_labels': (c * (s.g_input + s.e_input) * two, VEC), 'output_labels': (c * s.output * two, VEC), 'output_vals': (c * s.output, I(16))}[n]
    def mods(self, k): return [('region', p.r) for p in self.out.values()]
    def loop(self, C, k):
        if C.iv is None or not (self.garbler and self.high): return []
        ex = self.ex = k.ex; st = C.cur
        w = [r for r in C.written.values() if r.ety == VEC]
        if len(w) != 1: return []
        s = self.sz
        if C.depth == 0:
            b = C.bound
            if b is not None and is_true(simplify(b == self.cc)) and not is_true(simplify(b == self.ninit)): done, base = C.iv * self.ninput, self.ninit
            elif b is not None and is_true(simplify(b == self.ninit)): done, base = C.iv, IntVal(0)
            elif b is not None and is_true(simplify(b - self.cc * self.ninput == 0, som=True)): done, base = C.iv, self.ninit
            else: return []
        else:
            if C.parent is None or C.parent.iv is None: return []
            done, base = C.parent.iv * self.ninput + C.iv, self.ninit
        done = ex.simp(done) if hasattr(ex, 'simp') else simplify(done)
        return pairs(self, st, w[0], lambda q: q < done, base) + [('one draw per label', ex.gget(st, 'draws') == base + done)]
    def post(self, k):
        ex = k.ex; st = k.new; out = [('reports success', k.result == 0)]
        b = ex.bounds; ex.bounds = False
        for n, p in self.out.items():
            need, ty = self.need(n)
            v = ex.load(st, p, PTR); ok = []
            for c, q in (v.alts if isinstance(v, PtrAlt) else [(BoolVal(True), v)]):
                if isinstance(q, Ptr):
                    L = q.r.length if q.r.length is not None else None
                    ok.append((And(c, q.idx[-1] == 0), L, q.r))
            conds = []
            for c, L, r in ok: conds.append(And(c, L is not None and L >= need) if L is not None else And(c, BoolVal(r.nbytes is not None) , r.nbytes >= need * (16 if ty == VEC else 2)))
            hy = []
            if is_num(simplify(self.cc)) is False: hy = [self.cc >= 1]
            s = self.sz
            mono = [Implies(And(x >= 0, self.cc >= 0), And(self.cc * x >= 0)) for x in (s.p_input, s.g_input, s.e_input, s.output)]
            out.append(('%s is a buffer with room for every label' % n, Implies(And(need > 0, *mono), Or(*conds) if conds else BoolVal(False))))
            if self.garbler and self.high and n in ('init_labels', 'input_labels'):
                tot, base = (self.ninit, IntVal(0)) if n == 'init_labels' else (self.cc * self.ninput, self.ninit)
                for c, L, r in ok:
                    for nm, f in pairs(self, st, r, lambda q: q < tot, base): out.append(('%s: %s' % (n, nm), Implies(And(need > 0, c, *mono), f)))
        ex.bounds = b
        return out
GENS = lambda: [Gen('GarbleGneInitLabels', lambda s: s.g_init + s.e_init), Gen('GarbleGenInputLabels', lambda s: s.g_input + s.e_input),
                Alloc('GarbleMakeLabels', True, True), Alloc('EvaluateMakeLabels', False, True), Alloc('GarbleAllocLabels', True, False), Alloc('EvaluateAllocLabels', False, False)]
