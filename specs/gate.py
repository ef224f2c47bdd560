"""Gate-level contracts: GarbleGate, EvalGate, GarbleEvalGateKnownValue, AESEcbEncryptBlks."""
import os, re, sys
from z3 import *
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'engine'))
import build
from contracts import *
from vc import Exec, State, Obl
from mem import *

V128 = BitVecSort(128)

def gate_codes():
    t = open(os.path.join(build.REPO, 'util/common.h')).read()
    out = {}
    for n in ('AND', 'ANDN', 'NAND', 'NANDN', 'OR', 'ORN', 'NOR', 'NORN', 'XOR', 'XNOR', 'NOT'):
        m = re.search(r'#define\s+%sGATE\s+\(?\s*(-?(?:0[xXbB])?[0-9a-fA-F]+)' % n, t)
        if not m: raise Unsupported('gate code %sGATE' % n)
        out[n] = int(m.group(1), 0)
    return out

def truth(n, a, b):
    """reference truth function (z3 Bools)"""
    return {'AND': lambda: And(a, b), 'ANDN': lambda: And(a, Not(b)), 'NAND': lambda: Not(And(a, b)), 'NANDN': lambda: Not(And(a, Not(b))),
            'OR': lambda: Or(a, b), 'ORN': lambda: Or(a, Not(b)), 'NOR': lambda: Not(Or(a, b)), 'NORN': lambda: Not(Or(a, Not(b))),
            'XOR': lambda: Xor(a, b), 'XNOR': lambda: Not(Xor(a, b)), 'NOT': lambda: Not(a)}[n]()
LINEAR = ('XOR', 'XNOR', 'NOT')

class AESBlks(Contract):
    """AESEcbEncryptBlks(blks, n, key): every block is replaced by E(key, block); key unchanged."""
    name = 'AESEcbEncryptBlks'
    params = ('blks', 'n', 'key')
    def E(self, ex):
        return Function('AES', *([V128] * 15), IntSort() if ex.mode == 'int' else BitVecSort(32), V128, V128)
    def keyterms(self, k, old=True):
        ex = k.ex; T = S('struct.AES_KEY')
        ks = [k.rd(k.key, T, 0, i, old=True) for i in range(15)]
        return ks + [k.rd(k.key, T, 1, old=True)]
    def apply(self, ex, st, args, tys, ats, ins):
        k = self.ctx(ex, st, args, tys, ats, ins)
        n = simplify(k.n)
        if not is_num(n) or n.as_long() > 16: raise Unsupported('AESEcbEncryptBlks with symbolic block count')
        ks = self.keyterms(k); E = self.E(ex)
        vs = [ex.load(st, at(ex, k.blks, VEC, i), VEC) for i in range(n.as_long())]
        for i, v in enumerate(vs):
            ex.store(st, at(ex, k.blks, VEC, i), VEC, E(*ks, v))
        ex.aes_calls = getattr(ex, 'aes_calls', [])
        ex.aes_calls.append((list(st.pc), vs))
        return None

class Random(Contract):
    """RandomBlock(): arbitrary value (cryptographic quality is not modelled)"""
    name = 'RandomBlock'
    params = ()
    def apply(self, ex, st, args, tys, ats, ins):
        return ex.fresh('random_block', V128)

def registry():
    return Registry().add(AESBlks(), Random(), Keep('GarbleGate'), Keep('EvalGate'), Keep('GarbleEvalGateKnownValue'))

class Keep(Contract):
    """not inlined; verified as a top-level function"""
    def __init__(self, n): self.name = n
    def handles(self, ex): return False

def lsb(v): return Extract(0, 0, v) == 1
def x1(c, R): return If(c, R, BitVecVal(0, 128))

class Gate:
    """symbolic execution of both parties' gate functions on related inputs; obligations per property"""
    def __init__(self, mod, reg, n, code, case):
        # case: (s0, s1) in {'pub','sec'}^2
        self.n, self.case = n, case
        ex = self.ex = new_exec(mod, reg, 'bv')
        ex.top = '%s %s,%s' % (n, case[0], case[1])
        st = State(); st.gh = dict(ex.ghost_init)
        fg = find_fn(mod, 'GarbleGate'); fe = find_fn(mod, 'EvalGate')
        if fg is None or fe is None: raise Unsupported('GarbleGate/EvalGate not found')
        R = self.R = Concat(BitVec('R_hi', 127), BitVecVal(1, 1))
        self.v = [Const('v%d' % i, BoolSort()) for i in (0, 1)]
        self.c = [Const('color%d' % i, BoolSort()) for i in (0, 1)]
        self.L = [Concat(BitVec('label0_hi%d' % i, 127), If(self.c[i], BitVecVal(1, 1), BitVecVal(0, 1))) for i in (0, 1)]
        self.p = [Const('inv%d' % i, BoolSort()) for i in (0, 1)]      # evaluator parity: True = SECRET_INV
        self.cid, self.gid = BitVec('cid', 64), BitVec('gid', 64)
        ex.axiom(st, ULT(self.gid, BitVecVal(1 << 32, 64)))      # circuits have fewer than 2^32 gates
        sec = [c == 'sec' for c in case]
        # garbler arguments
        def region(name, ety, n=1, kind='param'):
            r = Region(name, ety, ex.ival(n) if isinstance(n, int) else n, kind); return r, Ptr(r, (ex.zero(),))
        T = S('struct.BlockPair'); GT = S('struct.GarbledTable')
        def pair(i):
            r, p = region('in%d_labels' % i, T)
            if sec[i]:
                ex.store(st, ex.field(p, T, 0), VEC, self.L[i]); ex.store(st, ex.field(p, T, 1), VEC, self.L[i] ^ R)
            else:
                ex.store(st, ex.field(p, T, 0), VEC, Const('junk%d0' % i, V128)); ex.store(st, ex.field(p, T, 1), VEC, Const('junk%d1' % i, V128))
            return p
        def val(i, side):
            if not sec[i]: return If(self.v[i], BitVecVal(1, 16), BitVecVal(0, 16))
            if side == 'g': return BitVecVal(-1, 16)
            return If(self.p[i], BitVecVal(-2, 16), BitVecVal(-1, 16))
        self.tabn = BitVec('table_capacity', 64)
        self.gi, self.ei = BitVec('g_index', 64), BitVec('e_index', 64)
        ex.axiom(st, ULT(self.gi, self.tabn)); ex.axiom(st, ULT(self.ei, self.tabn)); ex.axiom(st, ULT(self.tabn, BitVecVal(1 << 40, 64)))
        self.gtab, gp = region('garbled_tables_g', GT, self.tabn)
        self.etab, ep = region('garbled_tables_e', GT, self.tabn)
        gir, gip = region('g_ind', I(64)); ex.store(st, gip, I(64), self.gi)
        eir, eip = region('e_ind', I(64)); ex.store(st, eip, I(64), self.ei)
        keyr, keyp = region('AES_Key', S('struct.AES_KEY'))
        gor, gop = region('g_out_labels', T); gvr, gvp = region('g_out_value', I(16))
        eor, eop = region('e_out_label', VEC); evr, evp = region('e_out_value', I(16))
        ty = BitVecVal(code, 32)
        self.st0 = st.copy()
        ret, s1 = ex.run(fg, [pair(0), val(0, 'g'), pair(1), val(1, 'g'), ty, self.cid, self.gid, gp, gip, R, keyp, gop, gvp], st)
        if s1 is None: raise Unsupported('GarbleGate never returns')
        ex.bounds = True
        self.g_aes = getattr(ex, 'aes_calls', []); ex.aes_calls = []
        b = ex.bounds; ex.bounds = False
        rd = lambda s, p, ty, *path: peek(ex, s, p, ty, *path)
        self.gi2 = rd(s1, gip, I(64))
        self.gl0, self.gl1 = rd(s1, gop, T, 0), rd(s1, gop, T, 1)
        self.gv = rd(s1, gvp, I(16))
        row = [rd(s1, at(ex, gp, GT, self.gi), GT, 0, k) for k in (0, 1)]
        rowgid = rd(s1, at(ex, gp, GT, self.gi), GT, 1)
        self.emitted = self.gi2 != self.gi
        self.g_state = s1
        # channel: the evaluator's next table is the garbler's if one was emitted for this gate
        es = s1.copy()
        e0 = at(ex, ep, GT, self.ei)
        self.pend = Const('pending_gid', BitVecSort(32))
        ex.axiom(es, Implies(Not(self.emitted), self.pend != Extract(31, 0, self.gid)))
        ex.store(es, ex.gep(ex.field(e0, GT, 0), ('arr', 2, VEC), [ex.zero(), ex.ival(0)]), VEC, If(self.emitted, row[0], Const('other_row0', V128)))
        ex.store(es, ex.gep(ex.field(e0, GT, 0), ('arr', 2, VEC), [ex.zero(), ex.ival(1)]), VEC, If(self.emitted, row[1], Const('other_row1', V128)))
        ex.store(es, ex.field(e0, GT, 1), I(32), If(self.emitted, rowgid, self.pend))
        ex.bounds = b
        held = [self.L[i] ^ x1(self.v[i], R) if sec[i] else Const('ejunk%d' % i, V128) for i in (0, 1)]
        self.held = held
        ret, s2 = ex.run(fe, [held[0], val(0, 'e'), held[1], val(1, 'e'), ty, self.cid, self.gid, ep, eip, keyp, eop, evp], es)
        if s2 is None: raise Unsupported('EvalGate never returns')
        self.e_aes = getattr(ex, 'aes_calls', [])
        ex.bounds = False
        self.ei2 = rd(s2, eip, I(64)); self.el = rd(s2, eop, VEC); self.ev = rd(s2, evp, I(16))
        self.rows, self.rowgid = row, rowgid
        self.key = keyp
        self.fin = s2
        self.gip, self.eip, self.gp, self.ep = gip, eip, gp, ep
        # linear-label model: lin/rr are linear functionals on labels with lin(Z)=v xor p, rr(Z)=0, rr(R)=1
        lin = Function('lin', V128, BoolSort()); rr = Function('rr', V128, BoolSort())
        self.lin, self.rr = lin, rr
        ls = []
        self.Z = [self.L[i] ^ x1(self.p[i], R) for i in (0, 1)]
        self.u = [Xor(self.v[i], self.p[i]) for i in (0, 1)]
        for f in (lin, rr):
            ls.append(Not(f(BitVecVal(0, 128))))
            ls.append(f(self.Z[0] ^ self.Z[1]) == Xor(f(self.Z[0]), f(self.Z[1])))
            ls.append(f(self.Z[0] ^ self.Z[1] ^ R) == Xor(f(self.Z[0]), Xor(f(self.Z[1]), f(R))))
        ls.append(rr(R))
        for i in (0, 1):
            if sec[i]: ls += [lin(self.Z[i]) == self.u[i], Not(rr(self.Z[i]))]
        for f in ls: ex.axiom(s2, f)
        self.t = truth(n, self.v[0], self.v[1])
        ex.bounds = True
    def ob(self, name, goal, kind='post', st=None):
        self.ex.oblige(st or self.fin, kind, name, goal)
    def ob_split(self, name, goal):
        import itertools
        if not (self.case == ('sec', 'sec')): return self.ob(name, goal)
        for bs in itertools.product((False, True), repeat=4):
            sub = [(x, BoolVal(b)) for x, b in zip(self.v + self.c, bs)]
            g = simplify(substitute(goal, *sub))
            self.ex.oblige(self.fin, 'post', name + ' [v=%d%d colour=%d%d]' % bs, g, [x if b else Not(x) for x, b in zip(self.v + self.c, bs)])
    # ---- property obligations
    def correct(self):
        """C01: the evaluator's held label decodes to the gate function; label pair keeps offset R; table bookkeeping in lockstep"""
        R, t = self.R, self.t
        secret = self.gv == BitVecVal(-1, 16)
        tb = If(t, BitVecVal(1, 16), BitVecVal(0, 16))
        self.ob('a public output has the gate function value on both sides', Implies(Not(secret), And(self.gv == tb, self.ev == tb)))
        self.ob('garbler output value is 0, 1 or SECRET', Or(self.gv == 0, self.gv == 1, secret))
        self.ob('output is secret for the evaluator exactly when it is for the garbler', secret == Or(self.ev == BitVecVal(-1, 16), self.ev == BitVecVal(-2, 16)))
        self.ob('output labels differ by R', Implies(secret, self.gl1 == self.gl0 ^ R))
        self.ob_split('evaluator holds the label of the true output value', Implies(secret, self.el == If(t, self.gl1, self.gl0)))
        p2 = self.ev == BitVecVal(-2, 16); u2 = Xor(t, p2); Z2 = self.gl0 ^ x1(p2, R)
        tabled = self.emitted
        self.ob('linear bookkeeping of the output label: canonical form', Implies(And(secret, Not(tabled)), And(self.lin(Z2) == u2, Not(self.rr(Z2)))))
        self.ob('a gate with a table has canonical parity SECRET', Implies(And(secret, tabled), Not(p2)))
        self.ob('both sides consume a table for the same gates', And(Implies(self.emitted, And(self.gi2 == self.gi + 1, self.ei2 == self.ei + 1)), Implies(Not(self.emitted), self.ei2 == self.ei)))
        self.ob('the emitted table carries the gate id', Implies(self.emitted, self.rowgid == Extract(31, 0, self.gid)))
        self.ob('a gate needing a table yields a secret output', Implies(self.emitted, secret))
        self.frame()
    def frame(self):
        ex = self.ex; GT = S('struct.GarbledTable')
        j = ex.fresh('j', BitVecSort(64)); ex.bounds = False
        for nm, s, base, idx, s0 in (('garbler', self.g_state, self.gp, self.gi, self.st0),):
            for path in ((0, 0), (0, 1), (1,)):
                self.ob('%s tables other than the current one are untouched' % nm,
                        Implies(j != idx, peek(ex, s, at(ex, base, GT, j), GT, *path) == peek(ex, s0, at(ex, base, GT, j), GT, *path)), st=self.g_state)
        ex.bounds = True
    # ---- C02
    def dep(self):
        """z3 Bool: given the public inputs only, can the output depend on a secret input?"""
        n = self.n; F, T = BoolVal(False), BoolVal(True); v = self.v
        if self.case == ('pub', 'pub'): return F
        if self.case == ('pub', 'sec'): return truth(n, v[0], F) != truth(n, v[0], T)
        if self.case == ('sec', 'pub'): return truth(n, F, v[1]) != truth(n, T, v[1])
        return T
    def public(self):
        dep = self.dep(); R, L = self.R, self.L
        gsec = self.gv == BitVecVal(-1, 16); esec = Or(self.ev == BitVecVal(-1, 16), self.ev == BitVecVal(-2, 16))
        tb = If(self.t, BitVecVal(1, 16), BitVecVal(0, 16))
        self.ob('an output fixed by the public inputs is public on both sides and has the gate function value', Implies(Not(dep), And(self.gv == tb, self.ev == tb)))
        self.ob('both parties classify the output the same way', gsec == esec)
        related = And(BoolVal(self.case == ('sec', 'sec') and self.n != 'NOT'), Or(L[0] == L[1], L[0] == L[1] ^ R))
        self.ob('a value that depends on an unrelated secret stays secret', Implies(And(dep, Not(related)), And(gsec, esec)))
        if self.case != ('sec', 'sec'):
            self.ob('no table is produced or consumed when an input is public', And(self.gi2 == self.gi, self.ei2 == self.ei))
    # ---- C18
    def cost(self):
        R, L = self.R, self.L
        ss = self.case == ('sec', 'sec')
        related = Or(L[0] == L[1], L[0] == L[1] ^ R)
        need = Not(related) if ss and self.n not in LINEAR else BoolVal(False)
        self.ob('exactly one table for a non-linear gate on unrelated secrets, none otherwise', self.gi2 == self.gi + If(need, BitVecVal(1, 64), BitVecVal(0, 64)))
        self.ob('the evaluator consumes exactly the tables produced', Implies(self.need_lockstep(), self.ei2 - self.ei == self.gi2 - self.gi))
        self.ob('a produced table is tagged with its gate', Implies(self.emitted, self.rowgid == Extract(31, 0, self.gid)))
        self.frame()
    def need_lockstep(self): return BoolVal(True)
    # ---- hash inputs
    def hash_inputs(self):
        """[(guard, party, slot, input block, label it is derived from)]"""
        out = []
        for who, calls in (('garbler', self.g_aes), ('evaluator', self.e_aes)):
            for pc, blks in calls:
                for j, b in enumerate(blks): out.append((conj(list(pc)), who, j, len(blks), b))
        return out
    def tweaks(self):
        if self.case != ('sec', 'sec') or self.n in LINEAR: return
        R, L = self.R, self.L
        hs = self.hash_inputs()
        for who, nb in (('garbler', 4), ('evaluator', 2)):
            mine = [h for h in hs if h[1] == who]
            self.ob('%s hashes %d blocks' % (who, nb), BoolVal(len(mine) == nb))
        cid2, gid2 = BitVec('cid2', 64), BitVec('gid2', 64)
        self.ex.axiom(self.fin, ULT(gid2, BitVecVal(1 << 32, 64)))
        other = (cid2, gid2)
        def strip(who, j, nb, b):
            """tweak = hash input xor its wire label"""
            half = j * 2 // nb
            if who == 'garbler': cands = [L[half], L[half] ^ R]
            else: cands = [self.held[half]]
            return half, [b ^ c for c in cands]
        T = []
        for g, who, j, nb, b in hs:
            half, ts = strip(who, j, nb, b)
            T.append((g, who, j, half, ts))
        # 1. the hash input is a label of this gate's input wire xor a tweak that depends only on (cycle, gate, half)
        tw = lambda c, g, h: Concat(c, (g << 1) | BitVecVal(h, 64))
        self.tw = tw
        for g, who, j, half, ts in T:
            self.ob('%s hash input %d is an input-wire label masked with the tweak of (cycle, gate, half %d)' % (who, j, half),
                    Implies(g, Or(*[t == tw(self.cid, self.gid, half) for t in ts])))
        if len([h for h in hs if h[1] == 'garbler']) == 4:
            G = [b for g, who, j, nb, b in hs if who == 'garbler']
            gg = [g for g, who, j, nb, b in hs if who == 'garbler']
            self.ob('the four garbler hash inputs cover both labels of both wires', Implies(And(*gg), And(G[0] ^ G[1] == R, G[2] ^ G[3] == R)))
        # 2. tweaks of different positions never coincide
        for h1 in (0, 1):
            for h2 in (0, 1):
                eqp = And(self.cid == cid2, self.gid == gid2, BoolVal(h1 == h2))
                self.ob('tweaks of distinct (cycle, gate, half) differ (halves %d,%d)' % (h1, h2), Implies(tw(self.cid, self.gid, h1) == tw(cid2, gid2, h2), eqp))
    # ---- C25
    def rows_spec(self):
        if self.case != ('sec', 'sec') or self.n in LINEAR: return
        R, L = self.R, self.L
        # f(a,b) = ((a^ia)&(b^ib))^io
        F, Tt = BoolVal(False), BoolVal(True)
        bits = [is_true(simplify(truth(self.n, BoolVal(bool(a)), BoolVal(bool(b))))) for a in (0, 1) for b in (0, 1)]
        for m in range(8):
            ia, ib, io = m & 1, m >> 1 & 1, m >> 2
            if all((((q >> 1) ^ ia) & ((q & 1) ^ ib)) ^ io == int(bits[q]) for q in range(4)): break
        else: raise Unsupported('not an AND-type gate')
        A0, A1 = L[0] ^ R if ia else L[0], L[0] if ia else L[0] ^ R
        B0, B1 = L[1] ^ R if ib else L[1], L[1] if ib else L[1] ^ R
        AT = S('struct.AES_KEY'); ex = self.ex
        b = ex.bounds; ex.bounds = False
        ks = [peek(ex, self.st0, self.key, AT, 0, i) for i in range(15)] + [peek(ex, self.st0, self.key, AT, 1)]
        ex.bounds = b
        E = AESBlks().E(ex)
        tw = lambda h: Concat(self.cid, (self.gid << 1) | BitVecVal(h, 64))
        def H(l, h): k = l ^ tw(h); return E(*ks, k) ^ k
        pa, pb = lsb(A0), lsb(B0)
        TG = H(A0, 0) ^ H(A1, 0) ^ x1(pb, R)
        TE = H(B0, 1) ^ H(B1, 1) ^ A0
        WG = H(A0, 0) ^ x1(pa, TG)
        WE = H(B0, 1) ^ x1(pb, TE ^ A0)
        C0 = WG ^ WE ^ x1(BoolVal(bool(io)), R)
        import itertools
        for c in itertools.product((False, True), repeat=2):
            sub = [(x, BoolVal(y)) for x, y in zip(self.c, c)]; hy = [x if y else Not(x) for x, y in zip(self.c, c)]
            for nm, goal in (('first row', self.rows[0] == TG), ('second row', self.rows[1] == TE), ('output label', self.gl0 == C0)):
                self.ex.oblige(self.fin, 'post', '%s equals the half-gates construction [colour=%d%d]' % ((nm,) + c), simplify(substitute(Implies(self.emitted, goal), *sub)), hy)

CASES = (('pub', 'pub'), ('pub', 'sec'), ('sec', 'pub'), ('sec', 'sec'))
def gate_units(cx, what, only=None, cases=CASES):
    """one unit per gate type"""
    reg = registry()
    mod = cx.module(reg, key='gate')
    codes = gate_codes()
    cx.under_contract('GarbleGate', 'EvalGate')
    cx.assume('AES is an uninterpreted function of the fixed key and the block (AESEcbEncryptBlks contract; its body is verified by C19)',
              'gate indices are below 2^32 (the gate id travels in a 32-bit field)')
    def mk(n, c):
        def gen():
            obls = []; covers = []
            for case in cases:
                g = Gate(mod, reg, n, c, case)
                getattr(g, what)()
                for o in g.ex.obls: o.name = '%s(%s,%s): %s' % (n, case[0], case[1], o.name)
                obls += g.ex.obls
                covers.append(('%s %s,%s inputs satisfiable' % (n, case[0], case[1]), g.fin.facts.all(), list(g.fin.pc)))
                cx.trust(*sorted(g.ex.assumed))
            return obls, covers
        return gen
    return [(n, mk(n, c)) for n, c in codes.items() if not only or n in only]
def gate_replay(mode):
    def replay(cx):
        bad = False; txt = ''
        for s in range(1, 4):
            rc, out = cx.run_harness('gate', [mode, cx.seed * 100 + s, 400])
            txt = out
            if rc != 0: return True, '/verif/harness/gate.cpp %s %d (exit %s)\n%s' % (mode, cx.seed * 100 + s, rc, out[-4000:])
        return False, 'gate harness, mode %s: %s' % (mode, txt[-300:])
    return replay
