"""The gate contracts used by the cycle specifications (GGate, EGate, Known of cycle.py) hold of the real gate functions:
several executions of the same function on arguments that agree up to normalisation are compared (bit-precise)."""
from gate import *
BPT = S('struct.BlockPair'); GT = S('struct.GarbledTable'); AKT = S('struct.AES_KEY')
B = lambda v, n: BitVecVal(v, n)
class Runs:
    def __init__(self, mod, reg, n, code, case):
        self.n, self.code, self.case = n, code, case; self.mod = mod
        ex = self.ex = new_exec(mod, reg, 'bv'); ex.top = '%s %s,%s' % (n, *case)
        self.st = State(); self.st.gh = dict(ex.ghost_init)
        self.v = [BitVec('value%d' % i, 16) for i in (0, 1)]
        for v in self.v: ex.axiom(self.st, Or(v == 0, v == 1))
        self.L = [[BitVec('label%d%d' % (i, k), 128) for k in (0, 1)] for i in (0, 1)]
        self.cid, self.gid = BitVec('cid', 64), BitVec('gid', 64); ex.axiom(self.st, ULT(self.gid, B(1 << 32, 64)))
        self.R = BitVec('R', 128); self.keyr = Region('AES_Key', AKT, ex.ival(1), 'param')
        self.rows = [BitVec('row%d' % k, 128) for k in (0, 1)]; self.k = 0
    def reg(self, n, ety, ln=1):
        r = Region(n, ety, ln if isinstance(ln, ExprRef) else self.ex.ival(ln), 'param'); return r, Ptr(r, (self.ex.zero(),))
    def sec(self, i): return self.case[i] == 'sec'
    def begin(self):
        self.k += 1; q = self.k; ex = self.ex; st = self.st.copy()
        cap, ind = BitVec('cap_%d' % q, 64), BitVec('ind_%d' % q, 64)
        ex.axiom(st, And(ULT(ind, cap), ULT(cap, B(1 << 40, 64))))
        tr, tp = self.reg('tables_%d' % q, GT, cap); ir, ip = self.reg('index_%d' % q, I(64)); ex.store(st, ip, I(64), ind)
        return st, q, tp, ip, ind
    def neg(self, q, i):
        v = BitVec('neg_%d_%d' % (q, i), 16); return v
    def read(self, st, p, ty, *path): return peek(self.ex, st, p, ty, *path)
    def garble(self):
        ex = self.ex; st, q, tp, ip, ind = self.begin(); ps = []; vs = []
        for i in (0, 1):
            r, p = self.reg('in%d_%d' % (i, q), BPT)
            for k in (0, 1): ex.store(st, ex.field(p, BPT, k), VEC, self.L[i][k] if self.sec(i) else BitVec('junk_%d_%d%d' % (q, i, k), 128))
            ps.append(p); v = self.v[i]
            if self.sec(i): v = self.neg(q, i); ex.axiom(st, v < 0)
            vs.append(v)
        _, ol = self.reg('out_%d' % q, BPT); _, ov = self.reg('outv_%d' % q, I(16))
        cells = lambda s: [self.read(s, at(ex, tp, GT, ind), GT, 0, k) for k in (0, 1)] + [self.read(s, at(ex, tp, GT, ind), GT, 1)]
        old = cells(st); j = BitVec('other_%d' % q, 64); oth = lambda s: [self.read(s, at(ex, tp, GT, j), GT, 0, k) for k in (0, 1)] + [self.read(s, at(ex, tp, GT, j), GT, 1)]
        b = ex.bounds; ex.bounds = False; oold = oth(st); ex.bounds = b
        ret, s = ex.run(find_fn(self.mod, 'GarbleGate'), [ps[0], vs[0], ps[1], vs[1], B(self.code, 32), self.cid, self.gid, tp, ip, self.R, Ptr(self.keyr, (ex.zero(),)), ol, ov], st)
        class O: pass
        o = O(); o.s = s; o.ind = ind; o.i2 = self.read(s, ip, I(64)); o.V = self.read(s, ov, I(16)); o.l = [self.read(s, ol, BPT, k) for k in (0, 1)]
        o.em = o.i2 != ind; o.old = old; o.new = cells(s); o.oold = oold; o.onew = oth(s); o.j = j
        self.ex.assume(self.st, conj([])) if False else None
        self.merge(s)
        return o
    def merge(self, s):
        """carry the facts of a run to the final state"""
        f = self.st.copy(); f.facts = s.facts; self.st = f
    def ob(self, name, goal): self.ex.oblige(self.st, 'post', name, goal)
    def garbler(self):
        a, b = self.garble(), self.garble(); sec = And(BoolVal(self.sec(0)), BoolVal(self.sec(1))); nl = BoolVal(self.n not in LINEAR)
        self.ob('GarbleGate: the value is 0, 1 or SECRET', Or(a.V == 0, a.V == 1, a.V == -1))
        self.ob('GarbleGate: the value does not depend on the labels of public inputs', a.V == b.V)
        self.ob('GarbleGate: the labels of a secret output do not depend on the labels of public inputs', Implies(a.V == -1, And(a.l[0] == b.l[0], a.l[1] == b.l[1])))
        self.ob('GarbleGate: a table is produced for the same gates', a.em == b.em)
        self.ob('GarbleGate: a table is produced only by a non-linear gate on secret inputs with a secret output', Implies(a.em, And(nl, sec, a.V == -1)))
        self.ob('GarbleGate: at most one table', Or(a.i2 == a.ind, a.i2 == a.ind + 1))
        self.ob('GarbleGate: the rows of a table are a function of the inputs', Implies(a.em, And(a.new[0] == b.new[0], a.new[1] == b.new[1])))
        self.ob('GarbleGate: the table carries the gate id', Implies(a.em, a.new[2] == Extract(31, 0, self.gid)))
        self.ob('GarbleGate: no table, no write', Implies(Not(a.em), And(*[x == y for x, y in zip(a.old, a.new)])))
        self.ob('GarbleGate: other tables stay', Implies(a.j != a.ind, And(*[x == y for x, y in zip(a.oold, a.onew)])))
    def evaluate(self, cid, gid, key, match, labels=None):
        ex = self.ex; st, q, tp, ip, ind = self.begin(); xs = []; vs = []
        for i in (0, 1):
            xs.append(self.L[i][0] if self.sec(i) else BitVec('junk_%d_%d' % (q, i), 128)); vs.append(self.sv[i] if self.sec(i) else self.v[i])
        c0 = at(ex, tp, GT, ind)
        if labels is not None:
            for k in (0, 1): ex.store(st, ex.gep(ex.field(c0, GT, 0), ('arr', 2, VEC), [ex.zero(), ex.ival(k)]), VEC, labels[k])
        g = self.read(st, c0, GT, 1)
        ex.axiom(st, g == Extract(31, 0, gid) if match else g != Extract(31, 0, gid))
        _, ol = self.reg('out_%d' % q, VEC); _, ov = self.reg('outv_%d' % q, I(16)); t0 = {k: m for k, m in st.mem.items()}
        ret, s = ex.run(find_fn(self.mod, 'EvalGate'), [xs[0], vs[0], xs[1], vs[1], B(self.code, 32), cid, gid, tp, ip, key, ol, ov], st)
        class O: pass
        o = O(); o.ind = ind; o.i2 = self.read(s, ip, I(64)); o.V = self.read(s, ov, I(16)); o.l = self.read(s, ol, VEC)
        o.untouched = all(s.mem.get(k) is t0.get(k, s.mem.get(k)) for k in s.mem if ex.regions[k][0] is tp.r)
        self.merge(s); return o
    def evaluator(self):
        ex = self.ex; self.sv = [BitVec('sval%d' % i, 16) for i in (0, 1)]; K = Ptr(self.keyr, (ex.zero(),)); K2 = Ptr(Region('AES_Key2', AKT, ex.ival(1), 'param'), (ex.zero(),))
        for v in self.sv: ex.axiom(self.st, Or(v == -1, v == -2))
        c2, g2 = BitVec('cid2', 64), BitVec('gid2', 64); ex.axiom(self.st, ULT(g2, B(1 << 32, 64)))
        a = self.evaluate(self.cid, self.gid, K, True, self.rows); b = self.evaluate(c2, g2, K2, True); c = self.evaluate(self.cid, self.gid, K, True, self.rows); d = self.evaluate(self.cid, self.gid, K, False)
        nd = a.i2 != a.ind; sec = And(BoolVal(self.sec(0)), BoolVal(self.sec(1))); nl = BoolVal(self.n not in LINEAR)
        self.ob('EvalGate: the value is 0, 1, SECRET or SECRET_INV', Or(a.V == 0, a.V == 1, a.V == -1, a.V == -2))
        self.ob('EvalGate: the value depends only on the type, the values and the labels of secret inputs', And(a.V == b.V, a.V == c.V, a.V == d.V))
        self.ob('EvalGate: whether a table is needed depends only on the type, the values and the labels of secret inputs', And(nd == (b.i2 != b.ind), nd == (c.i2 != c.ind)))
        self.ob('EvalGate: a table is needed only by a non-linear gate on secret inputs with a secret output', Implies(nd, And(nl, sec, a.V == -1)))
        self.ob('EvalGate: exactly one table is consumed, and only one that carries the gate id', And(Implies(nd, a.i2 == a.ind + 1), d.i2 == d.ind))
        sv = Or(a.V == -1, a.V == -2)
        self.ob('EvalGate: a label made without table depends only on the values and the labels of secret inputs', Implies(And(Not(nd), sv), And(a.l == b.l, a.l == c.l, a.l == d.l)))
        self.ob('EvalGate: a label made from a table depends only on the secret labels, the position, the key and the table', Implies(nd, a.l == c.l))
        self.ob('EvalGate: tables are not written', BoolVal(a.untouched and d.untouched))
def fn_units(cx, side):
    reg = registry(); mod = cx.module(reg, key='gate'); codes = gate_codes()
    cx.under_contract('GarbleGate' if side == 'garbler' else 'EvalGate')
    cx.assume('AES is an uninterpreted function of the fixed key and the block (AESEcbEncryptBlks contract; its body is verified by C19)')
    def gen():
        obls = []; cov = []
        for n, c in codes.items():
            for case in CASES:
                g = Runs(mod, reg, n, c, case); getattr(g, side)()
                for o in g.ex.obls: o.name = '%s(%s,%s): %s' % (n, *case, o.name)
                obls += g.ex.obls
                if case[0] == case[1]: cov.append(('%s %s,%s inputs satisfiable' % (n, *case), g.st.facts.all(), list(g.st.pc)))
                cx.trust(*sorted(g.ex.assumed))
        return obls, cov
    return ('gate contract, %s' % side, gen)
