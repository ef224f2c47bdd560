"""Input-label generation (C21) and label transfer (C08): high- and low-memory, with and without OT, both parties."""
from chan import *
from chan import Keep
B128 = BitVecSort(128)
bnbit = Function('bn_msg_bit', Msg, IntSort(), BoolSort())     # bit i of the BIGNUM carried by a message (SendBN / RecvBN; C11)
ots = Function('ot_send', Trace, IntSort(), Trace); otr = Function('ot_recv', Trace, IntSort(), Trace)
otv = Function('ot_value', Trace, IntSort(), B128)             # i-th block received by the OT at this point

class RecvBNc(Chan):
    """RecvBN: the BIGNUM becomes the one the peer sent (proved by C11)"""
    name = 'RecvBN'
    def apply(self, ex, st, args, tys, ats, ins):
        f = self.result(ex, st); T = tget(ex, st); m = got(T); p = bn_one(ex, args[1])
        g = ex.fresh_fn('partial', IntSort(), BoolSort())
        setall(ex, st, p, lambda *i: If(f, g(i[-1]), bnbit(m, i[-1])))
        tset(ex, st, If(f, T, rcv(T, BNLEN)))
        ex.gset(st, 'nbn', ex.gget(st, 'nbn') + 1)
        return If(f, IntVal(-1), IntVal(0))
class SendBNc(Chan):
    name = 'SendBN'
    def apply(self, ex, st, args, tys, ats, ins):
        f = self.result(ex, st); T = tget(ex, st); p = bn_one(ex, args[1])
        m = bnmsg(ex, st, p)
        tset(ex, st, If(f, T, snd(T, BNLEN, m)))
        ex.gset(st, 'nbn', ex.gget(st, 'nbn') + 1)
        return If(f, IntVal(-1), IntVal(0))
def bnmsg(ex, st, p):
    """the message carrying the current value of the BIGNUM at p"""
    c = getattr(ex, 'bnmsgs', None)
    if c is None: c = ex.bnmsgs = {}
    m = bn_mem(ex, st, p); k = (p.r.id, m.id)
    if k not in c: c[k] = Const('bnmsg_%s_%d' % (p.r.name, len(c)), Msg)
    return c[k]
class OTSendC(Chan):
    """OTSend/OTExtSend(message, n, fd): precondition = the n message pairs are those the caller's contract asks for"""
    def __init__(self, D, name): self.D, self.name = D, name
    def apply(self, ex, st, args, tys, ats, ins):
        D = self.D; n = args[1]; T = tget(ex, st)
        ex.oblige(st, 'call', 'the number of OT messages is the number of evaluator bits', n == D.otn())
        q = ex.fresh('q', IntSort()); pre = [q >= 0, q < n]
        b = ex.bounds; ex.bounds = False
        p = ex.load(st, ex.gep(args[0], PTR, [q]), PTR)
        for j in (0, 1):
            v = ex.load(st, ex.gep(p, VEC, [IntVal(j)]), VEC)
            ex.oblige(st, 'call', 'OT message %d of every evaluator bit is its label for %d' % (j, j), v == D.otmsg(q, j), pre)
        ex.bounds = b
        f = self.result(ex, st); tset(ex, st, If(f, T, ots(T, n)))
        return If(f, IntVal(-1), IntVal(0))
class OTRecvC(Chan):
    """OTRecv/OTExtRecv(select, n, fd, message): precondition = the selection bits are the caller's; message[i] becomes the selected block"""
    def __init__(self, D, name): self.D, self.name = D, name
    def apply(self, ex, st, args, tys, ats, ins):
        D = self.D; sel, n, fd, out = args; T = tget(ex, st)
        ex.oblige(st, 'call', 'the number of OT messages is the number of evaluator bits', n == D.otn())
        q = ex.fresh('q', IntSort()); b = ex.bounds; ex.bounds = False
        s = ex.load(st, ex.gep(sel, I(8), [q]), I(8))
        ex.oblige(st, 'call', 'every OT selection bit is the evaluator\'s input bit', (s != 0) == D.otsel(q), [q >= 0, q < n])
        f = self.result(ex, st)
        o = ex.descend(out, VEC); old = ex.getmem(st, o.r, (), VEC); g = ex.fresh_fn('partial', *([IntSort()] * len(o.idx)), B128)
        base = Base(lambda *i: If(f, g(*i), otv(T, i[-1])))
        w = Where(lambda *i: conj([x == y for x, y in zip(i[:-1], o.idx[:-1])] + [i[-1] >= 0, i[-1] < n]), base, old)
        w.desc = [tuple(('pt', x) for x in o.idx[:-1]) + (('rng', IntVal(0), n),)]
        ex.setmem(st, o.r, (), VEC, w)
        ex.bounds = b
        tset(ex, st, If(f, T, otr(T, n)))
        return If(f, IntVal(-1), IntVal(0))
def conj(cs): return And(*cs) if len(cs) != 1 else cs[0]

class Xfer(Contract):
    """label transfer of one party. kind: 'high' | 'init' | 'input'"""
    def __init__(self, name, kind, garbler, unit=None, noot=None, cls=None):
        self.name, self.kind, self.garbler, self.noot = name, kind, garbler, noot
        self.unit = name + ('' if noot is None else ', OT disabled' if noot else ', with OT')
    def ghost_init(self, ex): return dict(ghosts0(ex), nbn=IntVal(0))
    def setup(self, ex, st, fn):
        self.ex = ex; self.st0 = st; gc = circuit(ex); self.gc = gc; self.sz = s = Sizes(ex, st, gc)
        sec = s.g_input + s.e_input
        self.fd = Int('connfd'); self.cc = ex.nn(Int('clock_cycles')); self.cid = ex.nn(Int('cid')); ex.axiom(st, And(self.cc >= 0, self.cid >= 0))
        two = [IntVal(2)] if self.garbler else []
        self.ir = Region('init_labels', VEC, None, 'param'); self.ir.extra['shape'] = list(two); 
        if self.garbler: self.ir.extra['rows'] = s.g_init + s.e_init
        else: self.ir.length = s.g_init + s.e_init
        self.nr = Region('input_labels', VEC, None, 'param')
        if self.kind == 'high': self.nr.extra['shape'] = two + [sec]; self.nr.extra['rows'] = self.cc
        elif self.garbler: self.nr.extra['shape'] = two; self.nr.extra['rows'] = sec
        else: self.nr.length = sec
        self.initp, self.inp = Ptr(self.ir, (ex.zero(),)), Ptr(self.nr, (ex.zero(),))
        self.b_init, self.p_init = bn_region(ex, 's_init'); self.b_input, self.p_input = bn_region(ex, 's_input')
        self.i0 = ex.getmem(st, self.ir, (), VEC); self.n0 = ex.getmem(st, self.nr, (), VEC)
        self.bi0 = ex.getmem(st, self.b_init, (), ('i', 1)); self.bn0 = ex.getmem(st, self.b_input, (), ('i', 1))
        nt = BoolVal(self.noot) if self.noot is not None else Bool('disable_OT')
        F = lambda n: Function(n, IntSort(), IntSort(), Trace)
        self.TR = {p: F('trace_%s_%s' % (p, 'G' if self.garbler else 'E')) for p in ('gi', 'gn', 'ei', 'en')}
        if self.kind == 'high': args = [gc, self.p_init, self.initp, self.p_input, self.inp, self.cc, nt, self.fd]
        elif self.kind == 'init': args = [gc, self.p_init, self.initp, nt, self.fd]
        else: args = [gc, self.p_input, self.inp, self.cid, nt, self.fd]
        self.params = tuple('a%d' % i for i in range(len(args)))
        for f in self.traceax(): ex.axiom(st, f)
        return args
    # ---- specification
    def phases(self):
        """(name, cycles?, number of bits, first position)"""
        s = self.sz; P = []
        hi = self.kind == 'high'
        if self.kind in ('high', 'init'): P.append(('gi', False, s.g_init, IntVal(0)))
        if self.kind in ('high', 'input'): P.append(('gn', hi, s.g_input, IntVal(0)))
        if self.kind in ('high', 'init'): P.append(('ei', False, s.e_init, s.g_init))
        if self.kind in ('high', 'input'): P.append(('en', hi, s.e_input, s.g_input))
        return P
    def tphases(self): return [p for p in self.phases() if self.noot or p[0] in ('gi', 'gn')]
    def otn(self):
        s = self.sz
        return {'high': s.e_init + self.cc * s.e_input, 'init': s.e_init, 'input': s.e_input}[self.kind]
    def otix(self, ph, c, i):
        """index of the bit among the OT messages"""
        if ph[0] == 'ei': return i
        return self.sz.e_init + c * self.sz.e_input + i if self.kind == 'high' else i
    def otstep(self, T):
        n = self.otn(); U = (ots if self.garbler else otr)(T, n)
        return U if self.kind == 'high' else If(n == 0, T, U)
    def endtr(self, ph):
        return self.TR[ph[0]](self.cc, 0) if ph[1] else self.TR[ph[0]](0, ph[2])
    def traceax(self):
        out = []; T = T0
        for ph in self.tphases():
            if ph[0] in ('ei', 'en'): T = self.bnstep(T, ph[0])
            out.append(self.TR[ph[0]](0, 0) == T); T = self.endtr(ph)
        self.tend = T if self.noot else self.otstep(T); self.tot = T
        return out
    def bnstep(self, T, p):
        if self.garbler: return rcv(T, BNLEN)
        return snd(T, BNLEN, bnmsg(self.ex, self.st0, self.p_init if p == 'ei' else self.p_input))
    def bitix(self, ph, c, i):
        """position of the bit in the BIGNUM"""
        if ph[0] in ('gi', 'ei'): return i
        n = ph[2]
        return (c if self.kind == 'high' else self.cid) * n + i
    def bit(self, ph, c, i):
        k = self.bitix(ph, c, i)
        if ph[0] == 'gi': return self.bi0.read((k,))
        if ph[0] == 'gn': return self.bn0.read((k,))
        Tb = self.prev(ph)
        return bnbit(got(Tb), k)
    def prev(self, ph):
        """trace before the BIGNUM of this phase is received"""
        P = self.tphases(); j = [x[0] for x in P].index(ph[0])
        return self.endtr(P[j - 1]) if j else T0
    def cellix(self, ph, c, i):
        k = simplify(i + ph[3])
        return (c, k) if ph[0] in ('gn', 'en') and self.kind == 'high' else (k,)
    def label(self, ph, c, i):
        m = self.i0 if ph[0] in ('gi', 'ei') else self.n0
        ix = self.cellix(ph, c, i)
        return If(self.bit(ph, c, i), m.read(ix + (IntVal(1),)), m.read(ix + (IntVal(0),)))
    def step(self, ph, T, c, i):
        return snd(T, 16, mb(self.label(ph, c, i))) if self.garbler else rcv(T, 16)
    def received(self, ph, c, i):
        if ph[0] in ('ei', 'en') and not self.noot: return otv(self.tot, self.otix(ph, c, i))
        return mb_(got(self.TR[ph[0]](c if ph[1] else 0, i)))
    # ---- evaluator's cells: done(phase, c, i)
    def cells(self, st, done):
        if self.garbler: return []
        ex = self.ex; out = []
        for reg, m0, phs, nm in ((self.ir, self.i0, ('gi', 'ei'), 'init'), (self.nr, self.n0, ('gn', 'en'), 'input')):
            P = [p for p in self.phases() if p[0] in phs]
            if not P: continue
            cur = ex.getmem(st, reg, (), VEC)
            c, i = Ints('qc qi')
            un = []
            for p in P:
                ix = self.cellix(p, c, i)
                d = And(done(p, c, i), i >= 0, i < p[2], *([c >= 0, c < self.cc] if p[1] else []))
                out.append(('received labels (%s)' % p[0], ForAll([c, i] if p[1] else [i], Implies(d, cur.read(ix) == self.received(p, c, i)))))
                d2 = And(done(p, c, i), i >= 0, i < p[2])
            k = Int('qk')
            tch = Or(*[And(done(p, c, simplify(k - p[3])), k >= p[3], k < p[3] + p[2]) for p in P])
            ix = (c, k) if self.kind == 'high' and nm == 'input' else (k,)
            out.append(('other %s labels untouched' % nm, ForAll([c, k] if len(ix) == 2 else [k], Implies(Not(tch), cur.read(ix) == m0.read(ix)))))
        return out
    def which(self, C):
        """the phase of this loop: from the number of BIGNUMs exchanged so far and the loop bound"""
        st = C.entry; nb = simplify(self.ex.gget(st, 'nbn'))
        nb = nb.as_long() if is_num(nb) else None
        P = self.tphases()
        P = [p for p in P if (p[0] in ('gi', 'gn')) == (nb == 0)]
        if nb and len([p for p in P]) == 2: P = [P[nb - 1]]
        if len(P) == 1: return P[0]
        # both garbler phases: the init phase runs first
        T = tget(self.ex, st)
        return next((p for p in P if simplify(T).eq(simplify(self.TR[p[0]](0, 0))) or simplify(T).eq(T0) and p[0] == 'gi'), None) or self.bybound(C, P)
    def bybound(self, C, P):
        b = C.bound
        for p in P:
            w = self.cc if p[1] else p[2]
            if b is not None and is_true(simplify(b == w)): return p
        return None
    def loop(self, C, k):
        ex = self.ex; st = C.cur
        if C.iv is None: return []
        io = any(n in C.calls for n in ('SendData', 'RecvData'))
        if not io: return self.otloop(C, k)
        if C.depth == 0:
            C.ph = ph = self.which(C)
            if ph is None: return []
            done0 = lambda p, c, i: BoolVal(self.before(p, ph))
            if ph[1]:
                c = C.iv
                if C.stage == 'step': ex.axiom(st, self.TR[ph[0]](c, 0) == self.TR[ph[0]](simplify(c - 1), ph[2]))
                T = self.TR[ph[0]](c, 0); done = lambda p, d, i: d < c if p[0] == ph[0] else done0(p, d, i)
            else:
                i = C.iv
                if C.stage == 'step': ex.axiom(st, self.TR[ph[0]](0, i) == self.step(ph, self.TR[ph[0]](0, simplify(i - 1)), IntVal(0), simplify(i - 1)))
                T = self.TR[ph[0]](0, i); done = lambda p, d, j: j < i if p[0] == ph[0] else done0(p, d, j)
        elif C.depth == 1:
            if C.parent is None or getattr(C.parent, 'ph', None) is None or C.parent.iv is None: return []
            ph = C.parent.ph; c = C.parent.iv; i = C.iv
            done0 = lambda p, c, i: BoolVal(self.before(p, ph))
            if C.stage == 'step': ex.axiom(st, self.TR[ph[0]](c, i) == self.step(ph, self.TR[ph[0]](c, simplify(i - 1)), c, simplify(i - 1)))
            T = self.TR[ph[0]](c, i); done = lambda p, d, j: Or(d < c, And(d == c, j < i)) if p[0] == ph[0] else done0(p, d, j)
        else: return []
        r = [('no failure so far', Not(ex.gget(st, 'failed'))), ('trace', tget(ex, st) == T)]
        return r + self.cells(st, lambda p, c, i: And(done(p, c, i), c >= 0) if p[1] else done(p, c, i))
    def before(self, p, ph):
        n = [x[0] for x in self.phases()]
        return n.index(p[0]) < n.index(ph[0])
    def otloop(self, C, k): return []
    def mods(self, k): return [('region', self.ir), ('region', self.nr)] if not self.garbler else []
    def post(self, k):
        ex = self.ex; st = k.new; failed = ex.gget(st, 'failed'); ok = Not(failed)
        T = self.tend
        r = [('reports failure exactly when the channel failed', k.result == If(failed, IntVal(-1), IntVal(0))),
             ('exactly the specified messages are exchanged, in order', Implies(ok, tget(ex, st) == T))]
        return r + [(n, Implies(ok, f)) for n, f in self.cells(st, lambda p, c, i: And(c >= 0, c < self.cc) if p[1] else BoolVal(True))]

class OTCall(Chan):
    """GarbleOT / EvalauteOT (and the low-memory ones) as callee of a transfer function: contract verified by OTFn"""
    def __init__(self, D, name): self.D, self.name = D, name
    def apply(self, ex, st, args, tys, ats, ins):
        D = self.D; T = tget(ex, st)
        want = {'high': [D.gc, D.initp, D.inp, D.cc, D.fd] if D.garbler else [D.gc, D.p_init, D.initp, D.p_input, D.inp, D.cc, D.fd],
                'init': [D.gc, D.initp, D.fd] if D.garbler else [D.gc, D.p_init, D.initp, D.fd],
                'input': [D.gc, D.inp, D.cid, D.fd] if D.garbler else [D.gc, D.p_input, D.inp, D.cid, D.fd]}[D.kind]
        for k, (a, w) in enumerate(zip(args, want)):
            if isinstance(w, Ptr): g = BoolVal(isinstance(a, Ptr) and a.r.id == w.r.id and all(is_true(simplify(x == y)) for x, y in zip(a.idx, w.idx)))
            else: g = a == w
            ex.oblige(st, 'call', '%s is called with the right argument %d' % (self.name, k), g)
        f = self.result(ex, st)
        tset(ex, st, If(f, T, D.otstep(T)))
        if not D.garbler:
            for reg, nm in ((D.ir, 'ei'), (D.nr, 'en')):
                for p in D.phases():
                    if p[0] != nm: continue
                    old = ex.getmem(st, reg, (), VEC); g = ex.fresh_fn('partial', *([IntSort()] * (2 if p[1] else 1)), B128)
                    ph = p
                    def val(*ix, ph=ph, g=g):
                        c, k = (ix[0], ix[1]) if ph[1] else (IntVal(0), ix[0])
                        return If(f, g(*ix), otv(T, D.otix(ph, c, k - ph[3])))
                    def wh(*ix, ph=ph): return And(ix[-1] >= ph[3], ix[-1] < ph[3] + ph[2], *([ix[0] >= 0, ix[0] < D.cc] if ph[1] else []))
                    w = Where(wh, Base(val), old)
                    w.desc = [((('rng', IntVal(0), D.cc),) if ph[1] else ()) + (('rng', ph[3], simplify(ph[3] + ph[2])),)]
                    ex.setmem(st, reg, (), VEC, w)
        return If(f, IntVal(-1), IntVal(0))

OTNAMES = {('high', True): 'GarbleOT', ('high', False): 'EvalauteOT', ('init', True): 'GarbleOTInitLowMem', ('init', False): 'EvalauteOTInitLowMem', ('input', True): 'GarbleOTInputLowMem', ('input', False): 'EvalauteOTInputLowMem'}
XNAMES = {('high', True): 'GarbleTransferLabels', ('high', False): 'EvaluateTransferLabels', ('init', True): 'GarbleTransferInitLabels', ('init', False): 'EvaluateTransferInitLabels', ('input', True): 'GarbleTransferInputLabels', ('input', False): 'EvaluateTransferInputLabels'}
def xfers():
    out = []
    for (kind, g), n in XNAMES.items():
        for noot in (True, False): out.append(Xfer(n, kind, g, noot=noot))
    return out
def xreg(D):
    return Registry().add(SendData(), RecvData(), RecvBNc(), SendBNc(), *BN_BITS(), OTCall(D, OTNAMES[(D.kind, D.garbler)]), Keep(D.name))

# ---------------------------------------------------------------- the OT callees themselves
class OTFn(Xfer):
    """GarbleOT / EvalauteOT and the low-memory versions: every evaluator bit gets its own label pair / selection bit / label cell"""
    def __init__(self, kind, garbler):
        super().__init__(OTNAMES[(kind, garbler)], kind, garbler, noot=False); self.unit = self.name
    def setup(self, ex, st, fn):
        super().setup(ex, st, fn)
        RQ, CQ = (Function('otbit_' + n, IntSort(), IntSort()) for n in ('cycle', 'pos'))
        self.RQ, self.CQ = RQ, CQ
        if self.kind == 'high': a = [self.gc, self.initp, self.inp, self.cc, self.fd] if self.garbler else [self.gc, self.p_init, self.initp, self.p_input, self.inp, self.cc, self.fd]
        elif self.kind == 'init': a = [self.gc, self.initp, self.fd] if self.garbler else [self.gc, self.p_init, self.initp, self.fd]
        else: a = [self.gc, self.inp, self.cid, self.fd] if self.garbler else [self.gc, self.p_input, self.inp, self.cid, self.fd]
        self.params = tuple('a%d' % i for i in range(len(a)))
        return a
    def traceax(self):
        self.tot = T0; self.tend = self.otstep(T0); return []
    # the q-th OT message: which evaluator bit it is
    def split(self, q):
        """(is init bit, cycle, position)"""
        s = self.sz
        if self.kind == 'init': return BoolVal(True), IntVal(0), q
        if self.kind == 'input': return BoolVal(False), IntVal(0), q
        return q < s.e_init, self.RQ(q), self.CQ(q)
    def splitax(self, c, i):
        """index e_init + c*e_input + i belongs to cycle c, position i (uniqueness of division with remainder)"""
        s = self.sz; q = s.e_init + c * s.e_input + i
        return Implies(And(c >= 0, i >= 0, i < s.e_input), And(self.RQ(q) == c, self.CQ(q) == i))
    def otmsg(self, q, j):
        s = self.sz; e, c, i = self.split(q); J = (IntVal(j),)
        a = lambda: self.i0.read((simplify(i + s.g_init) if self.kind == 'init' else simplify(q + s.g_init),) + J)
        k = simplify(i + s.g_input)
        b = lambda: self.n0.read(((c, k) if self.kind == 'high' else (k,)) + J)
        return a() if self.kind == 'init' else b() if self.kind == 'input' else If(e, a(), b())
    def otsel(self, q):
        s = self.sz; e, c, i = self.split(q)
        a = lambda: self.bi0.read((q,))
        b = lambda: self.bn0.read((simplify((c if self.kind == 'high' else self.cid) * s.e_input + i),)) 
        if self.kind == 'high': b = lambda: self.bn0.read((simplify(q - s.e_init),))
        return a() if self.kind == 'init' else b() if self.kind == 'input' else If(e, a(), b())
    def received(self, ph, c, i): return otv(self.tot, self.otix(ph, c, i))
    # ---- loops
    def loop(self, C, k):
        ex = self.ex; st = C.cur
        if C.iv is None or C.calls & {'OTSend', 'OTExtSend', 'OTRecv', 'OTExtRecv'}: return []
        s = self.sz
        wr = list(C.written.values()) + ([r for r in C.parent.written.values()] if C.parent else [])
        pr = [r for r in wr if r.id in (self.ir.id, self.nr.id)]
        if pr: return self.copyout(C, pr)
        buf = self.msgbuf(C, wr)
        if buf is None: return []
        pos = self.position(C)
        if pos is None: return []
        ph, c, i = pos
        self.ax(C, ph, c, i)
        lo = simplify(self.otix(ph, c, i))
        out = []
        q = Int('qq'); b = ex.bounds; ex.bounds = False
        rg = And(q >= 0, q < lo)
        if self.garbler:
            p0 = Ptr(buf, (ex.zero(),))
            m = ex.getmem(st, buf, (), PTR)
            out.append(('message buffers allocated', ForAll([q], Implies(rg, ex.initialised(m, (q,))))))
            p = ex.load(st, ex.gep(p0, PTR, [q]), PTR)
            hp = ex.gget(st, 'hp')
            cs = []
            for g, v in (p.alts if hasattr(p, 'alts') else [(BoolVal(True), p)]):
                if isinstance(v, Ptr) and v.r.dims == 2: cs.append(Implies(g, And(v.idx[0] < hp, v.idx[0] >= self.ex.ghost_init['hp'], v.idx[-1] == 0) if not v.r.extra.get('shape') else And(v.idx[0] < hp, v.idx[-1] == 0)))
            if cs: out.append(('buffers are existing allocations', ForAll([q], Implies(rg, And(*cs)))))
            if isinstance(p, Ptr) or hasattr(p, 'alts'):
                for j in (0, 1):
                    v = ex.load(st, ex.gep(p, VEC, [IntVal(j)]), VEC)
                    out.append(('message pairs filled so far', ForAll([q], Implies(rg, v == self.otmsg(q, j)))))
        else:
            v = ex.getmem(st, buf, (), I(8)).read((q,))
            out.append(('selection bits filled so far', ForAll([q], Implies(rg, (v != 0) == self.otsel(q)))))
        ex.bounds = b
        return out
    def ax(self, C, ph, c, i):
        if self.kind == 'high' and ph[0] == 'en':
            st = C.cur
            for d in (0, 1): self.ex.axiom(st, self.splitax(c, simplify(i - d)))
            self.ex.axiom(st, self.sz.e_input * c >= 0)
            self.ex.axiom(st, Implies(self.sz.e_input == 0, self.sz.e_input * c == 0))
            self.ex.axiom(st, Implies(And(c <= self.cc, c >= 0), self.sz.e_input * c <= self.sz.e_input * self.cc))
            self.ex.axiom(st, Implies(And(c < self.cc, c >= 0), self.sz.e_input * c + self.sz.e_input <= self.sz.e_input * self.cc))
    def position(self, C):
        """(phase, cycle, index) reached when this loop is at C.iv"""
        P = {p[0]: p for p in self.phases() if p[0] in ('ei', 'en')}
        if C.depth == 1:
            if C.parent is None or C.parent.iv is None or self.kind != 'high': return None
            return P['en'], C.parent.iv, C.iv
        if C.depth != 0: return None
        b = C.bound
        if b is None: return None
        if self.kind == 'high':
            if is_true(simplify(b == self.cc)) : return P['en'], C.iv, IntVal(0)
            if is_true(simplify(b == self.sz.e_init)): return P['ei'], IntVal(0), C.iv
            return None
        return next(iter(P.values())), IntVal(0), C.iv
    def msgbuf(self, C, wr):
        for r in wr:
            if self.garbler and r.ety == ('ptr',): return r
            if not self.garbler and r.ety == ('i', 8): return r
        return None
    def copyout(self, C, pr):
        pos = self.position(C)
        if pos is None: return []
        ph, c, i = pos
        self.ax(C, ph, c, i)
        if self.kind == 'high' and ph[0] == 'en':
            done = lambda p, d, j: BoolVal(True) if p[0] == 'ei' else Or(d < c, And(d == c, j < i))
        else:
            done = lambda p, d, j: j < i if p[0] == ph[0] else BoolVal(False)
        return [('no failure so far', Not(self.ex.gget(C.cur, 'failed'))), ('trace', tget(self.ex, C.cur) == self.tend)] + self.cells(C.cur, lambda p, c, i: And(done(p, c, i), c >= 0) if p[1] else done(p, c, i))
    def phases(self): return [p for p in super().phases() if p[0] in ('ei', 'en')] if self.__dict__.get('only_e', True) else super().phases()
    def post(self, k):
        T = tget(self.ex, k.new)
        return super().post(k)

def otfns(): return [OTFn(kind, g) for (kind, g) in OTNAMES]
def otreg(D): return Registry().add(SendData(), RecvData(), *BN_BITS(), Keep(D.name), OTSendC(D, 'OTSend'), OTSendC(D, 'OTExtSend'), OTRecvC(D, 'OTRecv'), OTRecvC(D, 'OTExtRecv'))

def compose(mod, reg):
    """Alice's transfer and Bob's transfer over a faithful channel: message sequences are dual, and Bob ends up with label0 ^ (bit ? R : 0)"""
    import contracts as CT
    obls = []; covers = []
    R = Const('R', B128)
    for kind in ('high', 'init', 'input'):
        for noot in (True, False):
            ex = CT.new_exec(mod, reg, 'int'); ex.ghost_init.update(dict(ghosts0(ex), nbn=IntVal(0)))
            from vc import State
            st = State(); st.gh = dict(ex.ghost_init)
            G = Xfer(XNAMES[(kind, True)], kind, True, noot=noot); E = Xfer(XNAMES[(kind, False)], kind, False, noot=noot)
            G.setup(ex, st, None); E.setup(ex, st, None)
            same_sz = []
            for n in GCF:
                same_sz.append(getattr(G.sz, n) == getattr(E.sz, n))
            base = same_sz + st.facts.all() + [G.cc == E.cc, G.cid == E.cid]
            tag = '%s, %s: ' % (kind, 'OT disabled' if noot else 'with OT')
            c, i = Ints('cyc pos'); TG, TE = Consts('TG TE', Trace)
            for pg, pe in zip(G.phases(), E.phases()):
                assert pg[0] == pe[0]
                dom = [c >= 0, c < G.cc, i >= 0, i < pg[2]]
                off = lambda m, ix: [m.read(ix + (IntVal(1),)) == m.read(ix + (IntVal(0),)) ^ R]
                ix = G.cellix(pg, c, i); m = G.i0 if pg[0] in ('gi', 'ei') else G.n0
                l0 = m.read(ix + (IntVal(0),))
                own = pg[0] in ('gi', 'gn')
                bn = lambda D: (D.bi0 if pg[0] in ('gi', 'ei') else D.bn0)
                k = G.bitix(pg, c, i)
                truth = bn(G if own else E).read((k,))
                obls.append(lemma_obl('label transfer, %sthe two parties agree on the number of labels (%s)' % (tag, pg[0]), base, pg[2] == pe[2]))
                if own or noot:
                    hyp = base + dom + off(m, ix)
                    if not own:
                        Tp = G.prev(pg)
                        msg = bnmsg(ex, st, E.p_init if pg[0] == 'ei' else E.p_input)
                        obls.append(lemma_obl('label transfer, %sBob sends and Alice receives the selection bits (%s)' % (tag, pg[0]), [], And(G.bnstep(TG, pg[0]) == rcv(TG, BNLEN), E.bnstep(TE, pg[0]) == snd(TE, BNLEN, msg))))
                        hyp = hyp + [got(Tp) == msg, bnbit(msg, k) == bn(E).read((k,))]
                    te = E.TR[pe[0]](c if pe[1] else 0, i)
                    hyp.append(got(te) == mb(G.label(pg, c, i))); hyp.append(mb_(mb(G.label(pg, c, i))) == G.label(pg, c, i))
                    obls.append(lemma_obl('label transfer, %sone label sent is one label received (%s)' % (tag, pg[0]), base, And(G.step(pg, TG, c, i) == snd(TG, 16, mb(G.label(pg, c, i))), E.step(pe, TE, c, i) == rcv(TE, 16))))
                else:
                    GO = OTFn(kind, True); EO = OTFn(kind, False)
                    GO.__dict__.update({a: b for a, b in G.__dict__.items() if a not in ('name', 'noot', 'unit')}); EO.__dict__.update({a: b for a, b in E.__dict__.items() if a not in ('name', 'noot', 'unit')})
                    for O in (GO, EO): O.RQ, O.CQ = (Function('otbit_' + n, IntSort(), IntSort()) for n in ('cycle', 'pos'))
                    q = EO.otix(pe, c, i)
                    hyp = base + dom + off(m, ix)
                    if kind == 'high' and pg[0] == 'en': hyp += [GO.splitax(c, i), EO.splitax(c, i), c * G.sz.e_input >= 0]
                    hyp.append(otv(E.tot, q) == If(EO.otsel(q), GO.otmsg(q, 1), GO.otmsg(q, 0)))
                    obls.append(lemma_obl('label transfer, %sboth parties run the OT on the same number of messages' % tag, base, G.otn() == E.otn()))
                obls.append(lemma_obl('label transfer, %sthe evaluator holds label0 ^ (bit ? R : 0) (%s)' % (tag, pg[0]), hyp, E.received(pe, c, i) == If(truth, l0 ^ R, l0)))
                covers.append(cover('transfer ' + tag + pg[0], hyp))
    return obls, covers
