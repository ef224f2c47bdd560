"""Contracts of the four output-transfer functions, and the two-party composition lemma (C06)."""
from chan import *
from chan import Keep

def secret(v): return And(v != 0, v != 1)
class Out(Contract):
    """GarbleTransferOutput / EvaluateTransferOutput: cell (c, i) of output_bn and the message of the cell follow the ownership rule; cells in order"""
    garbler = True
    params = ('gc', 'labels', 'vals', 'cycles', 'mask', 'mode', 'bn', 'fd')
    tname = 'traceG'
    low = False; mval = None
    def ghost_init(self, ex): return ghosts0(ex)
    def setup(self, ex, st, fn):
        gc = circuit(ex); self.sz = Sizes(ex, st, gc); n = self.sz.output
        self.ex = ex
        self.n = n
        lr = Region('output_labels', VEC, None, 'param'); vr = Region('output_vals', I(16), None, 'param')
        self.cc = ex.nn(Int('clock_cycles')); ex.axiom(st, self.cc >= 0)
        if not self.low:
            lr.extra['shape'] = [IntVal(2), n] if self.garbler else [n]
            vr.extra['shape'] = [n]
            # memory safety: the arrays have clock_cycles rows
            lr.extra['rows'] = vr.extra['rows'] = self.cc
        else:
            if self.garbler: lr.extra['shape'] = [IntVal(2)]; lr.extra['rows'] = n
            else: lr.length = n
            vr.length = n
        self.lp, self.vp = Ptr(lr, (ex.zero(),)), Ptr(vr, (ex.zero(),))
        self.bnr, self.bn = bn_region(ex, 'output_bn', [n])
        self.mask = Handle(Int('mask_string')); self.mode = Int('output_mode') if self.mval is None else IntVal(self.mval)
        if self.mval is None: ex.axiom(st, And(self.mode >= 0, self.mode <= 2)); ex.nn(self.mode)
        self.fd = Int('connfd')
        self.st0 = st
        self.TR = Function(self.tname, IntSort(), IntSort(), Trace)
        self.bn0 = ex.getmem(st, self.bnr, (), ('i', 1))
        self.vals0 = ex.getmem(st, vr, (), I(16)); self.labs0 = ex.getmem(st, lr, (), VEC)
        ex.axiom(st, self.TR(0, 0) == T0)
        if self.low:
            self.cid = ex.nn(Int('cid')); ex.axiom(st, self.cid >= 0)
            self.row = IntVal(0)
            return [gc, self.lp, self.vp, self.cid, self.mode, self.mask, self.bn, self.fd]
        return [gc, self.lp, self.vp, self.cc, self.mask, self.mode, self.bn, self.fd]
    # --- specification
    def val(self, c, i): return self.vals0.read((i,) if self.low else (c, i))
    def label(self, c, i):
        z = IntVal(0)
        ix = (i, z) if self.garbler else (i,)
        return self.labs0.read(ix if self.low else (c,) + ix)
    def mine(self, i):
        m = hexbit(self.mask.t, i)
        return m if self.garbler else Not(m)
    def ty(self, c, i): return If(lsb(self.label(c, i)), IntVal(1), IntVal(0))
    def step(self, T, c, i):
        v = self.val(c, i)
        return If(secret(v), If(self.mine(i), rcv(T, 2), snd(T, 2, mi(self.ty(c, i)))), T)
    def bit(self, T, c, i, old):
        v = self.val(c, i)
        return If(v == 0, BoolVal(False), If(v == 1, If(self.mine(i), BoolVal(True), old), If(self.mine(i), mi_(got(T)) != self.ty(c, i), BoolVal(False))))
    def stepax(self, c, i): return self.TR(c, i + 1) == self.step(self.TR(c, i), c, i)
    def rowof(self): return (IntVal(0) if self.mval == 2 else self.cid) if self.low else None
    def cells(self, st, done):
        """every cell holds its specified value if done(c, i), else its initial one"""
        ex = self.ex; B = ex.getmem(st, self.bnr, (), ('i', 1))
        c, i = Ints('qc qi')
        cur = B.read((c, i)); old = self.bn0.read((c, i))
        tc = IntVal(0) if self.low else c
        body = And(i >= 0, i < self.n)
        pat = [MultiPattern(old)] if False else []
        q1 = ForAll([c, i], Implies(And(body, done(c, i)), cur == self.bit(self.TR(tc, i), tc, i, old)))
        q2 = ForAll([c, i], Implies(And(body, Not(done(c, i))), cur == old))
        return q1, q2
    def loop(self, C, k):
        ex = self.ex; st = C.cur
        if C.iv is None: return []
        T = tget(ex, st); nf = Not(ex.gget(st, 'failed'))
        if self.low:
            r = self.rowof(); i = C.iv
            if C.stage == 'step': ex.axiom(st, self.stepax(0, simplify(i - 1)))
            q1, q2 = self.cells(st, lambda c, j: And(c == r, j < i))
            return [('no failure so far', nf), ('trace', T == self.TR(0, i)), ('delivered bits', q1), ('other bits untouched', q2)]
        if C.depth == 0:
            c = C.iv
            if C.stage == 'step': ex.axiom(st, self.TR(c, 0) == self.TR(simplify(c - 1), self.n))
            q1, q2 = self.cells(st, lambda d, j: And(d >= 0, d < c))
            return [('no failure so far', nf), ('trace', T == self.TR(c, 0)), ('delivered bits', q1), ('other bits untouched', q2)]
        if C.depth == 1:
            if C.parent is None or C.parent.iv is None: return []
            c = C.parent.iv; i = C.iv
            if C.stage == 'step': ex.axiom(st, self.stepax(c, simplify(i - 1)))
            q1, q2 = self.cells(st, lambda d, j: Or(And(d >= 0, d < c), And(d == c, j < i)))
            return [('no failure so far', nf), ('trace', T == self.TR(c, i)), ('delivered bits', q1), ('other bits untouched', q2)]
        return []
    def mods(self, k): return [('region', self.bnr)]
    def post(self, k):
        ex = self.ex; st = k.new; T = tget(ex, st); failed = ex.gget(st, 'failed')
        end = self.TR(0, self.n) if self.low else self.TR(self.cc, 0)
        r = self.rowof()
        q1, q2 = self.cells(st, (lambda c, j: And(c == r)) if self.low else (lambda c, j: And(c >= 0, c < self.cc)))
        return [('reports failure exactly when the channel failed', k.result == If(failed, IntVal(-1), IntVal(0))),
                ('exactly the messages of the specified cells are exchanged, in order', Implies(Not(failed), T == end)),
                ('every delivered bit follows the ownership rule', Implies(Not(failed), q1)),
                ('no other bit of the result changes', Implies(Not(failed), q2))]
class OutE(Out): garbler = False; tname = 'traceE'
class OutL(Out): low = True; params = ('gc', 'labels', 'vals', 'cid', 'mode', 'mask', 'bn', 'fd')
class OutEL(OutL): garbler = False; tname = 'traceE'
def named(cls, n, m=None):
    c = cls(); c.name = n; c.mval = m; c.unit = n if m is None else '%s, output mode %d' % (n, m); return c
CON = lambda: [named(Out, 'GarbleTransferOutput'), named(OutE, 'EvaluateTransferOutput'), *[named(cls, n, m) for cls, n in ((OutL, 'GarbleTransferOutputLowMem'), (OutEL, 'EvaluateTransferOutputLowMem')) for m in (0, 1, 2)]]
