"""OT extension (C10) at bit level: HashBN, SwitchRowColumnBN(Pair), OTExtSendBN, OTExtRecvBN."""
from bn import *
from chan import Keep
from ot import alloc_inv, arrays, one, sgn, WSend, WRecv, wreg
Zi = IntSort(); Bo = BoolSort()
rbit = Function('random_draw_bit', Zi, Zi, Bo)              # bit j of the k-th BN_rand draw
bnbit = Function('bn_msg_bit', Msg, Zi, Bo)                 # bit of the BIGNUM carried by a message
otbit = Function('ot_result_bit', Trace, Zi, Zi, Bo)        # OTRecvBN: bit of the i-th result
ots = Function('ot_send_bn', Trace, Zi, Trace); otr = Function('ot_recv_bn', Trace, Zi, Trace)
Row = DeclareSort('Row'); rowbit = Function('row_bit', Row, Zi, Bo)
hbit = Function('hash_bit', Zi, Row, Zi, Bo)                # bit j of HashBN(tweak, row)
K = 128

def bits(ex, st, p):
    """bit function of the BIGNUM at p"""
    p = one(p)
    if not isinstance(p, Ptr): raise Unsupported('BIGNUM %r' % (p,))
    m = bn_mem(ex, st, p); pa = tuple(p.idx[:-1])
    return lambda j: m.read(pa + (j,))
class Fn(Contract):
    def __init__(self, name, fn, ret=None): self.name, self.fn, self.retv = name, fn, ret
    def apply(self, ex, st, args, tys, ats, ins):
        r = self.fn(ex, st, *args)
        return r if r is not None else None if self.retv is None else IntVal(self.retv)
def x_rand(ex, st, p, n, top, bottom):
    ex.oblige(st, 'call', 'random rows have exactly %d bits' % K, n == K)
    ex.oblige(st, 'call', 'random rows are unconstrained (top = -1, bottom = 0)', And(sgn(top) == -1, bottom == 0))
    k = ex.gget(st, 'draws'); ex.gset(st, 'draws', k + 1)
    setall(ex, st, one(p), lambda *i: And(i[-1] >= 0, i[-1] < K, rbit(k, i[-1])))
def x_copy(ex, st, r, a):
    f = bits(ex, st, a); setall(ex, st, one(r), lambda *i: f(i[-1])); return r
def x_fullone(ex, st, a, n): setall(ex, st, one(a), lambda *i: And(i[-1] >= 0, i[-1] < n))
def x_invert(ex, st, a, n):
    f = bits(ex, st, a); setall(ex, st, one(a), lambda *i: If(And(i[-1] >= 0, i[-1] < n), Not(f(i[-1])), f(i[-1])))
def x_xor(ex, st, r, n, v, w):
    f, g, o = bits(ex, st, v), bits(ex, st, w), bits(ex, st, r); setall(ex, st, one(r), lambda *i: If(And(i[-1] >= 0, i[-1] < n), Xor(f(i[-1]), g(i[-1])), o(i[-1])))
class XNew(BNNew):
    """a fresh number equal to 0"""
    def apply(self, ex, st, args, tys, ats, ins):
        p = BNNew.apply(self, ex, st, args, tys, ats, ins); F = BoolVal(False); setall(ex, st, p, lambda *i: F); return p
class XSet(BNSet):
    """sets the bit; assumes OpenSSL's allocations succeed"""
    def apply(self, ex, st, args, tys, ats, ins):
        BNSet.apply(self, ex, st, args, tys, ats, ins); return IntVal(1)
class XClear(BNClear):
    """clears the bit; OpenSSL refuses (0) only when the number is too short to have it, so never when the bit was set"""
    def apply(self, ex, st, args, tys, ats, ins):
        was = bn_bit(ex, st, args[0], args[1]); r = BNClear.apply(self, ex, st, args, tys, ats, ins); ex.axiom(st, Implies(was, r == 1)); return r
class XSend(Chan):
    """SendBN; the message is identified with a specified one when they agree bit for bit"""
    name = 'SendBN'
    def __init__(self, D): self.D = D
    def apply(self, ex, st, args, tys, ats, ins):
        f = bits(ex, st, args[1]); g = ex.fresh('bnmsg', Msg); j = Int('mj')
        ex.axiom(st, ForAll([j], bnbit(g, j) == f(j), patterns=[bnbit(g, j)]))
        for M in self.D.cands_msg():
            d = ex.fresh('differ', Zi); ex.axiom(st, Or(bnbit(M, d) != f(d), g == M))
        b = self.result(ex, st); T = tget(ex, st); tset(ex, st, If(b, T, snd(T, BNLEN, g)))
        return If(b, IntVal(-1), IntVal(0))
class XRecv(Chan):
    name = 'RecvBN'
    def apply(self, ex, st, args, tys, ats, ins):
        b = self.result(ex, st); T = tget(ex, st); m = got(T); g = ex.fresh_fn('partial', Zi, Bo)
        setall(ex, st, one(args[1]), lambda *i: If(b, g(i[-1]), bnbit(m, i[-1]))); tset(ex, st, If(b, T, rcv(T, BNLEN)))
        return If(b, IntVal(-1), IntVal(0))
def whole(n):
    """bits of the whole bytes that cover n bits"""
    return 8 * ((n + 7) / 8)
class XHash(Contract):
    """HashBN(r, bits, tweak, v), bits <= 256: every one of the bits (rounded up to whole bytes) of r is a function of (tweak, low 128 bits of v), there is no other; verified by HashS"""
    name = 'HashBN'
    def __init__(self, D): self.D = D
    def apply(self, ex, st, args, tys, ats, ins):
        r, n, tw, v = args; f = bits(ex, st, v); g = ex.fresh('row', Row); j = Int('rj')
        ex.oblige(st, 'call', 'the hash width is the message width', And(n == self.D.mb, n <= 256))
        ex.axiom(st, ForAll([j], rowbit(g, j) == And(j >= 0, j < K, f(j)), patterns=[rowbit(g, j)]))
        for M in self.D.cands_row():
            d = ex.fresh('differ', Zi); ex.axiom(st, Or(And(d >= 0, d < K, rowbit(M, d) != f(d)), g == M))
        w8 = whole(n); setall(ex, st, one(r), lambda *i: And(i[-1] >= 0, i[-1] < w8, hbit(tw, g, i[-1])))
        return IntVal(0)
def deref(ex, st, m, k, pre, what):
    """pointer cell m[k], obliging that it is initialised"""
    p = ex.descend(ex.gep(m, PTR, [k]), PTR); lp, ix = ex.leaf(p); mm = ex.getmem(st, p.r, lp, PTR)
    ex.oblige(st, 'deref', what + ' is initialised', ex.initialised(mm, ix), pre)
    return one(mm.read(ix))
class XOTRecv(Chan):
    """OTRecvBN(sel, n, fd, m): base OT (C09)"""
    name = 'OTRecvBN'
    def __init__(self, D): self.D = D
    def apply(self, ex, st, args, tys, ats, ins):
        sel, n, fd, m = args; D = self.D; q, q2, j = ex.fresh('q', Zi), ex.fresh('q', Zi), ex.fresh('j', Zi); f = bits(ex, st, sel); ex.bounds = False
        ex.oblige(st, 'call', 'the base OT transfers %d columns on the caller\'s connection' % K, And(n == K, fd == D.fd))
        ex.oblige(st, 'call', 'the base OT selection is the random number S', Implies(And(j >= 0, j < K), f(j) == D.sbit(j)))
        v = deref(ex, st, m, q, [q >= 0, q < n], 'result of the base OT'); p = ex.descend(m, PTR); v2 = one(ex.getmem(st, p.r, ex.leaf(p)[0], PTR).read((q2,)))
        if not isinstance(v, Ptr) or len(v.idx) != 2: raise Unsupported('result array of the OT')
        ex.oblige(st, 'call', 'the results are distinct numbers', v.idx[0] != v2.idx[0], [q >= 0, q < n, q2 >= 0, q2 < n, q != q2])
        b = self.result(ex, st); T = tget(ex, st); g = ex.fresh_fn('ot_out', Zi, Zi, Bo); ex.setmem(st, v.r, (), BITI, Base(lambda *i: g(*i)))
        r, k = Ints('orow obit'); vr = one(ex.getmem(st, p.r, ex.leaf(p)[0], PTR).read((r,)))
        ex.axiom(st, ForAll([r, k], Implies(And(r >= 0, r < n, Not(b)), g(vr.idx[0], k) == otbit(T, r, k)))); ex.bounds = True
        tset(ex, st, If(b, T, otr(T, n))); return If(b, IntVal(-1), IntVal(0))
class XOTSend(Chan):
    name = 'OTSendBN'
    def __init__(self, D): self.D = D
    def apply(self, ex, st, args, tys, ats, ins):
        m, n, fd = args; D = self.D; q, j = ex.fresh('q', Zi), ex.fresh('j', Zi); pre = [q >= 0, q < n]; ex.bounds = False
        ex.oblige(st, 'call', 'the base OT transfers %d column pairs on the caller\'s connection' % K, And(n == K, fd == D.fd))
        row = deref(ex, st, m, q, pre, 'column pair')
        for h in (0, 1):
            c = bits(ex, st, deref(ex, st, row, IntVal(h), pre, 'column'))
            ex.oblige(st, 'call', 'bit i of column q of half %d is bit q of row i of that half, for every message i and no other' % h, c(j) == And(j >= 0, j < D.n, D.tbit(j, h, q)), pre)
        ex.bounds = True; b = self.result(ex, st); T = tget(ex, st); tset(ex, st, If(b, T, ots(T, n))); return If(b, IntVal(-1), IntVal(0))
class XSwitch(Contract):
    """SwitchRowColumnBN(Pair)(v, rows, width, &w): w[i] (of each half) = column i of v; verified by SwitchS"""
    def __init__(self, pair): self.pair = pair; self.name = 'SwitchRowColumnBN' + ('Pair' if pair else '')
    def apply(self, ex, st, args, tys, ats, ins):
        v, n, width, w = args; q = ex.fresh('q', Zi); bb = ex.bounds; ex.bounds = False
        halves = (0, 1) if self.pair else (None,)
        for h in halves:
            p = deref(ex, st, v, q, [q >= 0, q < n], 'row')
            if h is not None: p = deref(ex, st, p, IntVal(h), [q >= 0, q < n], 'row of half %d' % h)
        z = ex.zero(); nm = '%d' % next(ex.counter)
        ra = Region('switched' + nm, PTR, width, 'heap'); rb = Region('switched_num' + nm, BITI, None, 'heap', dims=3 if self.pair else 2)
        if self.pair:
            rr = Region('switched_row' + nm, PTR, ex.ival(2), 'heap', dims=2); rr.ptr_shape[()] = lambda i, j: Ptr(rb, (i, j, z)); ra.ptr_shape[()] = lambda i: Ptr(rr, (i, z))
        else: ra.ptr_shape[()] = lambda i: Ptr(rb, (i, z))
        def bit(i, h, k):
            def at(h):
                p = one(ex.load(st, ex.gep(v, PTR, [k]), PTR))
                if h is not None: p = one(ex.load(st, ex.gep(p, PTR, [IntVal(h)]), PTR))
                return bits(ex, st, p)(i)
            x = at(None) if h is None else at(h.as_long()) if is_num(h) else If(h == 0, at(0), at(1))
            return And(k >= 0, k < n, x)
        s2 = st.copy(); st_ = st
        def content(*i):
            nonlocal st
            old, st = st, s2; b2 = ex.bounds; ex.bounds = False
            try: return bit(i[0], i[1] if self.pair else None, i[-1])
            finally: st = old; ex.bounds = b2
        ex.setmem(st, rb, (), BITI, Base(content))
        ex.store(st, w, PTR, Ptr(ra, (z,))); ex.bounds = bb
        return IntVal(0)

class Spec(Contract):
    ghost_mono = ('draws',)
    def ghost_init(self, ex): return dict(ghosts0(ex), draws=Int('draws0'))
    def bnp(self, ex, st, name):
        r = Region(name, BITI, None, 'param'); return Ptr(r, (ex.zero(),)), ex.getmem(st, r, (), BITI)
def rowsb(ex, st, reg, n, f, dom, nm, half=None, split=False):
    """reg[q] (half `half`) points to an allocated number whose bits k are f(q, k) on dom(k), for q < n"""
    q, k = Ints('xq xk'); out = []; rg = And(q >= 0, q < n); b = ex.bounds; ex.bounds = False
    try:
        v = one(ex.getmem(st, reg, (), PTR).read((q,)))
        if half is not None and isinstance(v, Ptr):
            pj = ex.descend(ex.gep(v, PTR, [IntVal(half)]), PTR); lp, ix = ex.leaf(pj); m2 = ex.getmem(st, pj.r, lp, PTR)
            out.append(('%s: half %d allocated' % (nm, half), ForAll([q], Implies(rg, ex.initialised(m2, ix))))); v = one(m2.read(ix))
        if isinstance(v, Ptr) and v.r.ety == BITI:
            if half is not None and v.r.dims == 2: out.append(('%s: half %d is an existing allocation' % (nm, half), ForAll([q], Implies(rg, And(v.idx[0] < ex.gget(st, 'hp'), v.idx[0] >= ex.ghost_init['hp'], v.idx[-1] == 0)))))
            g = bits(ex, st, v)(k) == f(q, k); nm2 = '%s: bits%s' % (nm, '' if half is None else ' of half %d' % half)
            if split:
                last = simplify(n - 1)
                out.append((nm2, ForAll([q, k], Implies(And(q >= 0, q < last, dom(k)), g))))
                out.append((nm2 + ', last element', ForAll([k], Implies(And(last >= 0, dom(k)), substitute(g, (q, last))))))
            else: out.append((nm2, ForAll([q, k], Implies(And(rg, dom(k)), g))))
    finally: ex.bounds = b
    return out
class SwitchS(Spec):
    params = ('v', 'v_len', 'v_bit_len', 'w')
    def __init__(self, pair): self.pair = pair; self.name = 'SwitchRowColumnBN' + ('Pair' if pair else '')
    def setup(self, ex, st, fn):
        self.ex = ex; z = ex.zero(); self.n = ex.nn(Int('v_len')); self.m = ex.nn(Int('v_bit_len')); ex.axiom(st, And(self.n >= 0, self.m >= 0))
        self.vb = Region('v_num', BITI, None, 'param', dims=3 if self.pair else 2); va = Region('v', PTR, self.n, 'param')
        if self.pair:
            vr = Region('v_row', PTR, ex.ival(2), 'param', dims=2); vr.ptr_shape[()] = lambda i, j: Ptr(self.vb, (i, j, z)); va.ptr_shape[()] = lambda i: Ptr(vr, (i, z))
        else: va.ptr_shape[()] = lambda i: Ptr(self.vb, (i, z))
        self.v0 = ex.getmem(st, self.vb, (), BITI); self.wr = Region('w', PTR, ex.ival(1), 'param')
        return [Ptr(va, (z,)), self.n, self.m, Ptr(self.wr, (z,))]
    def halves(self): return (0, 1) if self.pair else (None,)
    def src(self, k, h, i): return self.v0.read((k, IntVal(h), i) if self.pair else (k, i))
    def bit(self, h): return lambda i, k: And(k >= 0, k < self.n, self.src(k, h, i))
    def loop(self, C, kk):
        ex = self.ex; st = C.cur
        if C.iv is None: return []
        out = []; k = Int('xk')
        if C.depth == 0:
            for r in arrays(ex, C):
                out += alloc_inv(ex, st, r, C.iv)
                for h in self.halves(): out += rowsb(ex, st, r, C.iv, self.bit(h), lambda k: BoolVal(True), 'finished columns', h)
        elif C.parent is not None and C.parent.iv is not None:
            i = C.parent.iv
            for reg in C.written.values():
                if reg.ety != BITI: continue
                inst = self.target(ex, C, reg)
                for r in arrays(ex, C):
                    v = one(ex.getmem(C.entry, r, (), PTR).read((i,)))
                    for h in self.halves():
                        b = ex.bounds; ex.bounds = False; p = v
                        if h is not None:
                            lp, ix = ex.leaf(ex.descend(ex.gep(v, PTR, [IntVal(h)]), PTR)); p = one(ex.getmem(C.entry, v.r, lp, PTR).read(ix))
                        ex.bounds = b
                        if not isinstance(p, Ptr) or p.r.id != reg.id or inst is None or not (simplify(p.idx[0] - inst).eq(IntVal(0))): continue
                        f = bits(ex, st, p)
                        out.append(('the bits of the column written so far', ForAll([k], Implies(And(k >= 0, k < C.iv), f(k) == self.src(k, h, i)))))
        return out
    def target(self, ex, C, reg):
        m = C.dry_back.mem.get((reg.id, ())); seen = 0
        while m is not None and seen < 50:
            seen += 1
            if isinstance(m, Mix): m = m.a; continue
            if isinstance(m, Store): return m.idx[0]
            if isinstance(m, Where) and getattr(m, 'desc', None) and m.desc[0][0][0] == 'pt': return m.desc[0][0][1]
            return None
    def mods(self, k): return [('region', self.wr)]
    def post(self, kk):
        ex = self.ex; st = kk.new; w = one(ex.getmem(st, self.wr, (), PTR).read((IntVal(0),))); q, k = Ints('pq pk'); b = ex.bounds; ex.bounds = False
        out = [('reports success', kk.result == 0), ('the result array is returned', ex.initialised(ex.getmem(st, self.wr, (), PTR), (IntVal(0),)))]
        if not isinstance(w, Ptr): raise Unsupported('result of SwitchRowColumn')
        try:
            for h in self.halves():
                p = ex.descend(ex.gep(w, PTR, [q]), PTR); lp, ix = ex.leaf(p); m = ex.getmem(st, p.r, lp, PTR); d = [ex.initialised(m, ix)]; v = one(m.read(ix))
                if h is not None:
                    p = ex.descend(ex.gep(v, PTR, [IntVal(h)]), PTR); lp, ix = ex.leaf(p); m = ex.getmem(st, p.r, lp, PTR); d.append(ex.initialised(m, ix)); v = one(m.read(ix))
                rg = And(q >= 0, q < self.m)
                out.append(('every column is allocated', ForAll([q], Implies(rg, And(*d)))))
                out.append(('bit k of column q is bit q of row k, and there is no other bit', ForAll([q, k], Implies(rg, bits(ex, st, v)(k) == self.bit(h)(q, k)))))
        finally: ex.bounds = b
        return out

class XSpec(Spec):
    def common(self, ex):
        self.ex = ex; self.n = ex.nn(Int('m_len')); self.mb = ex.nn(Int('m_bitlen')); self.fd = Int('connfd'); self.d0 = ex.ghost_init['draws']; self.cur = None
    def Mf(self, n): return Function('ext_%s_%s' % (self.name, n), Zi, Msg)
    def cands_msg(self): return []
    def cands_row(self): return []
class SendS(XSpec):
    name = 'OTExtSendBN'; params = ('m', 'm_bitlen', 'm_len', 'connfd')
    def setup(self, ex, st, fn):
        self.common(ex); z = ex.zero(); ex.axiom(st, And(self.n >= 0, self.mb >= 0, self.mb <= 256))
        self.mr = Region('m', PTR, self.n, 'param'); mrow = Region('m_row', PTR, ex.ival(2), 'param', dims=2); self.mbr = Region('m_num', BITI, None, 'param', dims=3)
        self.mr.ptr_shape[()] = lambda i: Ptr(mrow, (i, z)); mrow.ptr_shape[()] = lambda i, j: Ptr(self.mbr, (i, j, z)); self.m0 = ex.getmem(st, self.mbr, (), BITI)
        self.defs(); 
        for f in self.axs(): ex.axiom(st, f)
        return [Ptr(self.mr, (z,)), self.mb, self.n, self.fd]
    def defs(self):
        self.Y = [self.Mf('y0'), self.Mf('y1')]; self.R = [Function('ext_row_%d' % j, Zi, Row) for j in (0, 1)]; self.TY = Function('ext_send_trace', Zi, Trace)
    def sbit(self, j): return rbit(self.d0, j)
    def qbit(self, i, k): return otbit(T0, k, i)
    def axs(self):
        i, j = Ints('ai aj'); out = [self.TY(0) == otr(T0, K)]
        for h in (0, 1):
            rb = self.qbit(i, j) if h == 0 else Xor(self.qbit(i, j), self.sbit(j))
            out.append(ForAll([i, j], rowbit(self.R[h](i), j) == And(j >= 0, j < K, rb), patterns=[rowbit(self.R[h](i), j)]))
            out.append(ForAll([i, j], bnbit(self.Y[h](i), j) == And(j >= 0, j < self.mb, Xor(hbit(i, self.R[h](i), j), self.m0.read((i, IntVal(h), j)))), patterns=[bnbit(self.Y[h](i), j)]))
        return out
    def cands_msg(self): return [y(self.cur) for y in self.Y] if self.cur is not None else []
    def cands_row(self): return [r(self.cur) for r in self.R] if self.cur is not None else []
    def step(self, T, i): return snd(snd(T, BNLEN, self.Y[0](i)), BNLEN, self.Y[1](i))
    def loop(self, C, kk):
        ex = self.ex; st = C.cur; i = C.iv
        if i is None: return []
        out = []; j = Int('wj')
        if 'SendBN' in C.calls:
            if C.stage != 'step': self.cur = i
            else: ex.axiom(st, self.TY(i) == self.step(self.TY(simplify(i - 1)), simplify(i - 1)))
            out += [('no failure so far', Not(ex.gget(st, 'failed'))), ('trace', tget(ex, st) == self.TY(i))]
            for r in C.written.values():
                if r.ety == BITI and r.dims == 1 and r.kind == 'heap':
                    lim = self.width(C, r); f = ex.getmem(st, r, (), BITI)
                    if lim is not None: out.append(('scratch number has no bit above its width', ForAll([j], Implies(Or(j < 0, j >= lim), Not(f.read((j,)))))))
        elif 'BN_new' in C.calls:
            for r in arrays(ex, C): out += alloc_inv(ex, st, r, i)
        return out
    def width(self, C, r):
        """width up to which the body writes this scratch number (BN_xor / HashBN argument)"""
        for nm, a in self.ex.calls_seen:
            if nm in ('BN_xor', 'HashBN') and isinstance(one(a[0]), Ptr) and one(a[0]).r.id == r.id: return a[1] if nm == 'BN_xor' else whole(self.mb)
        return None
    def post(self, k):
        ex = self.ex; f = ex.gget(k.new, 'failed')
        return [('reports failure exactly when the channel failed', k.result == If(f, IntVal(-1), IntVal(0))),
                ('one base OT with selection S, then H(i, q_i) ^ m_i0 and H(i, q_i ^ S) ^ m_i1 for every message', Implies(Not(f), tget(ex, k.new) == self.TY(self.n))),
                ('S is the only random draw', Implies(Not(f), ex.gget(k.new, 'draws') == self.d0 + 1))]
class RecvS(XSpec):
    name = 'OTExtRecvBN'; params = ('sel', 'm_bitlen', 'm_len', 'connfd', 'm')
    def setup(self, ex, st, fn):
        self.common(ex); z = ex.zero(); ex.axiom(st, And(self.n >= 0, self.mb >= 0, self.mb <= 256))
        self.sp, self.s0 = self.bnp(ex, st, 'sel'); self.mr = Region('m', PTR, self.n, 'param')
        self.defs()
        for f in self.axs(): ex.axiom(st, f)
        return [self.sp, self.mb, self.n, self.fd, Ptr(self.mr, (z,))]
    def defs(self): self.R = Function('ext_row_t', Zi, Row); self.TY = Function('ext_recv_trace', Zi, Trace)
    def s(self, i): return self.s0.read((i,))
    def tbit(self, i, h, k): return And(k >= 0, k < K, rbit(self.d0 + i, k) if h == 0 else Xor(rbit(self.d0 + i, k), self.s(i)))
    def axs(self):
        i, j = Ints('ai aj'); return [self.TY(0) == ots(T0, K), ForAll([i, j], rowbit(self.R(i), j) == self.tbit(i, 0, j), patterns=[rowbit(self.R(i), j)])]
    def cands_row(self): return [self.R(self.cur)] if self.cur is not None else []
    def step(self, T, i): return rcv(rcv(T, BNLEN), BNLEN)
    def res(self, i, j):
        T = self.TY(i); return And(j >= 0, j < self.mb, Xor(If(self.s(i), bnbit(got(rcv(T, BNLEN)), j), bnbit(got(T), j)), hbit(i, self.R(i), j)))
    def loop(self, C, kk):
        ex = self.ex; st = C.cur; i = C.iv
        if i is None: return []
        out = []
        if 'RecvBN' in C.calls:
            if C.stage != 'step': self.cur = i
            else: ex.axiom(st, self.TY(i) == self.step(self.TY(simplify(i - 1)), simplify(i - 1)))
            out += [('no failure so far', Not(ex.gget(st, 'failed'))), ('trace', tget(ex, st) == self.TY(i))]
            if self.mr.id in C.written: out += self.results(st, i, C.stage == 'step')
        elif 'BN_rand' in C.calls:
            out.append(('one draw per message', ex.gget(st, 'draws') == self.d0 + i))
            for r in arrays(ex, C):
                out += alloc_inv(ex, st, r, i)
                for h in (0, 1): out += rowsb(ex, st, r, i, lambda q, k, h=h: self.tbit(q, h, k), lambda k: BoolVal(True), 'rows drawn so far', h)
        return out
    def results(self, st, i, split=False):
        ex = self.ex; q = Int('aq'); m = ex.getmem(st, self.mr, (), PTR); rg = And(q >= 0, q < i)
        v = one(m.read((q,))); out = [('results allocated', ForAll([q], Implies(rg, ex.initialised(m, (q,)))))]
        if isinstance(v, Ptr):
            if v.r.dims == 2: out.append(('results are existing allocations', ForAll([q], Implies(rg, And(v.idx[0] < ex.gget(st, 'hp'), v.idx[0] >= ex.ghost_init['hp'], v.idx[-1] == 0)))))
            out += rowsb(ex, st, self.mr, i, self.res, lambda k: BoolVal(True), 'results so far', split=split)
        return out
    def mods(self, k): return [('region', self.mr)]
    def post(self, k):
        ex = self.ex; st = k.new; f = ex.gget(st, 'failed'); ok = Not(f)
        out = [('reports failure exactly when the channel failed', k.result == If(f, IntVal(-1), IntVal(0))),
               ('one base OT on the columns of (t, t ^ r), then two numbers per message are received', Implies(ok, tget(ex, st) == self.TY(self.n))),
               ('one random row per message', Implies(ok, ex.gget(st, 'draws') == self.d0 + self.n))]
        return out + [(n, Implies(ok, g)) for n, g in self.results(st, self.n)]
def extops(D):
    return [x for x in BN_BITS() if x.name not in ('BN_num_bits', 'BN_new', 'BN_set_bit', 'BN_clear_bit')] + [XNew(), XSet(), XClear(), BNFreeC(), Fn('BN_rand', x_rand, 1), Fn('BN_copy', x_copy), Fn('BN_full_one', x_fullone, 1), Fn('BN_invert', x_invert, 1), Fn('BN_xor', x_xor, 1),
            XSend(D), XRecv(), XHash(D), XOTRecv(D), XOTSend(D), XSwitch(False), XSwitch(True)]
def extreg(D): return Registry().add(*[c for c in extops(D) if c.name != D.name], Keep(D.name))

# ---------------------------------------------------------------- HashBN
Stream = DeclareSort('ByteStream'); sbyte = Function('stream_byte', Stream, Zi, Zi); Dig = DeclareSort('Digest'); dbyte = Function('digest_byte', Dig, Zi, Zi)
le4 = Function('le_byte_of_u32', Zi, Zi, Zi); vbyte = Function('le_byte_of_number', Zi, Zi); bytebit = Function('bit_of_byte', Zi, Zi, Bo); I8 = ('i', 8)
class HashS(Spec):
    """HashBN(r, bits, tweak, v): the digest input is tweak (4 bytes, as stored) followed by the low 128 bits of v, big-endian, always 20 bytes"""
    name = 'HashBN'; params = ('r', 'bits', 'tweak', 'v')
    def ghost_init(self, ex): return dict(dn=Int('dn_idle'), ds=Const('ds_idle', Stream), dig=Const('dig_idle', Dig))
    def setup(self, ex, st, fn):
        self.ex = ex; self.rp, self.r0 = self.bnp(ex, st, 'r'); self.vp, self.v0 = self.bnp(ex, st, 'v'); self.n = ex.nn(Int('bits')); self.tw = ex.nn(Int('tweak')); self.nb = ex.nn(Int('v_bits'))
        k = Int('hk'); ex.axiom(st, And(self.n >= 0, self.tw >= 0, self.nb >= 0, self.nb < 1 << 30)); self.DIG = Const('digest_of_tweak_and_row', Dig)
        ex.axiom(st, ForAll([k], Implies(8 * k >= self.nb, vbyte(k) == 0), patterns=[vbyte(k)]))
        ex.axiom(st, ForAll([k], And(vbyte(k) >= -128, vbyte(k) < 128), patterns=[vbyte(k)]))      # bytes as stored in a char
        return [self.rp, self.n, self.tw, self.vp]
    def stream(self, k): return If(k < 4, le4(self.tw, k), vbyte(19 - k))
    def loop(self, C, kk):
        ex = self.ex; st = C.cur
        if 'EVP_DigestUpdate' not in C.calls: return []
        k = Int('hk'); n = ex.gget(st, 'dn'); out = [('digest input so far', ForAll([k], Implies(And(k >= 0, k < n), sbyte(ex.gget(st, 'ds'), k) == self.stream(k))))]
        if C.iv is not None: out.append(('digest input length', n == 4 + C.iv))
        return out
    def mods(self, k): return [('region', self.rp.r)]
    def post(self, kk):
        ex = self.ex; st = kk.new; j = Int('hj'); f = bits(ex, st, self.rp); nb = (self.n + 7) / 8; ok = self.n <= 256
        return [('refuses more than 256 bits', Implies(Not(ok), kk.result == -1)), ('reports success', Implies(ok, kk.result == 0)),
                ('the digest is taken over tweak and row', Implies(ok, ex.gget(st, 'dig') == self.DIG)),
                ('result bits are the leading digest bytes, big-endian, and no other', Implies(ok, ForAll([j], f(j) == And(j >= 0, j < 8 * nb, bytebit(dbyte(self.DIG, nb - 1 - j / 8), j % 8)))))]
def hashops(S):
    def bchk(ex, st, p, t, n):
        """bytes p[0..n) lie inside the object"""
        if n.eq(IntVal(0)): return
        s2 = st.copy(); s2.pc = st.pc + (t >= 0, t < n); q = ex.gep(p, I8, [t]); ex.check_bounds(s2, q, ex.leaf(q)[1])
    def rdbyte(ex, st, p, n):
        """byte function of the n bytes at p"""
        p = one(p)
        if p.r.ety == ('i', 32):
            v = ex.load(st, p, ('i', 32)); ex.oblige(st, 'bounds', 'the bytes lie inside the word', n == 4); return lambda i: le4(v, i)
        q = ex.descend(p, I8); lp, ix = ex.leaf(q); m = ex.getmem(st, q.r, lp, I8); bchk(ex, st, q, ex.fresh('bi', Zi), n)
        return lambda i: m.read(ix[:-1] + (ix[-1] + i,))
    def init(ex, st, ctx, md, e): ex.gset(st, 'dn', IntVal(0)); ex.oblige(st, 'call', 'the digest is the configured one', BoolVal(isinstance(md, Handle) and 'md' in str(md.t)))
    def update(ex, st, ctx, p, n):
        f = rdbyte(ex, st, p, n); d0, s0 = ex.gget(st, 'dn'), ex.gget(st, 'ds'); g = ex.fresh('stream', Stream); k = Int('uk')
        ex.axiom(st, ForAll([k], sbyte(g, k) == If(And(k >= d0, k < d0 + n), f(k - d0), sbyte(s0, k)), patterns=[sbyte(g, k)]))
        ex.gset(st, 'ds', g); ex.gset(st, 'dn', d0 + n)
    def final(ex, st, ctx, p, lp):
        n, s0 = ex.gget(st, 'dn'), ex.gget(st, 'ds'); g = ex.fresh('dig', Dig); d = ex.fresh('differ', Zi)
        ex.axiom(st, Or(n != 20, And(d >= 0, d < 20, sbyte(s0, d) != S.stream(d)), g == S.DIG)); ex.gset(st, 'dig', g)
        fill(ex, st, p, IntVal(32), lambda k: dbyte(g, k))
        if lp is not NULL: ex.store(st, lp, ('i', 32), IntVal(32))
    def fill(ex, st, p, n, f):
        """write the n bytes f(0..n-1) at p"""
        p = ex.descend(one(p), I8); lp, ix = ex.leaf(p); o = ex.getmem(st, p.r, lp, I8)
        bchk(ex, st, p, ex.fresh('bi', Zi), n)
        w = Where(lambda *i: And(*([x == y for x, y in zip(i[:-1], ix[:-1])] + [i[-1] >= ix[-1], i[-1] < ix[-1] + n])), Base(lambda *i: f(i[-1] - ix[-1])), o)
        ex.setmem(st, p.r, lp, I8, w)
    def num_bits(ex, st, v): chk(ex, v); return S.nb
    def chk(ex, v):
        if not (isinstance(one(v), Ptr) and one(v).r.id == S.vp.r.id): raise Unsupported('BN size of another number')
    def bn2bin(ex, st, v, p):
        chk(ex, v); n = (S.nb + 7) / 8; fill(ex, st, p, n, lambda k: vbyte(n - 1 - k)); return n
    def bn2binpad(ex, st, v, p, L):
        chk(ex, v); n = (S.nb + 7) / 8; ok = L >= n; o = ex.fresh_fn('padfail', Zi, Zi); fill(ex, st, p, If(ok, L, 0), lambda k: vbyte(L - 1 - k)); return If(ok, L, IntVal(-1))
    def bin2bn(ex, st, p, n, r):
        f = rdbyte(ex, st, p, n); setall(ex, st, one(r), lambda *i: And(i[-1] >= 0, i[-1] < 8 * n, bytebit(f(n - 1 - i[-1] / 8), i[-1] % 8))); return r
    return [Fn('EVP_MD_CTX_new', lambda ex, st: Ptr(Region('mdctx', ('i', 8), ex.ival(1), 'heap'), (ex.zero(),))), Fn('EVP_MD_CTX_free', lambda *a: None), Fn('EVP_MD_CTX_reset', lambda *a: None, 1),
            Fn('EVP_DigestInit_ex', init, 1), Fn('EVP_DigestUpdate', update, 1), Fn('EVP_DigestFinal_ex', final, 1), Fn('BN_num_bits', num_bits), Fn('BN_bn2bin', bn2bin), Fn('BN_bn2binpad', bn2binpad), Fn('BN_bin2bn', bin2bn)]
def hashreg(S): return Registry().add(*hashops(S))

def extcompose():
    """both sides over a faithful channel, with a correct base OT (C09): the receiver obtains exactly the selected message"""
    O = []; X = []; i, k, j = Ints('i k j'); T = Const('T', Trace)
    S_, R_ = SendS(), RecvS()
    n, mb = Ints('m_len m_bitlen'); mf = Function('m', Zi, Zi, Zi, Bo); sf = Function('sel', Zi, Bo)
    for F, d in ((S_, 'dS'), (R_, 'dR')): F.n, F.mb, F.d0 = n, mb, Int(d); F.defs()
    S_.m0 = Base(lambda *a: mf(*a)); R_.s0 = Base(lambda *a: sf(*a))
    # base OT: the sender's k-th result is the column of half S_k, bit i of column k of half h is t(i, h, k)  (shown at the call of OTSendBN)
    base = ForAll([i, k], Implies(And(k >= 0, k < K), S_.qbit(i, k) == And(i >= 0, i < n, If(S_.sbit(k), R_.tbit(i, 1, k), R_.tbit(i, 0, k)))), patterns=[S_.qbit(i, k)])
    defs = S_.axs()[1:] + R_.axs()[1:]
    z = Int('z'); sel = S_.R[0](z), S_.R[1](z), R_.R(z)
    for b, nm in ((0, '0'), (1, '1')):
        O.append(lemma_obl('the row hashed by the receiver is the one the sender hashes for the selected message (%s)' % nm, defs + [base, z >= 0, z < n, sf(z) == BoolVal(b == 1)], rowbit(sel[b], j) == rowbit(R_.R(z), j)))
    X.append(cover('OT extension rows', defs + [base, z >= 0, z < n]))
    # rows with equal bits are equal (rows are the low 128 bits); the numbers received are the numbers sent
    eqr = [Implies(sf(z), sel[1] == sel[2]), Implies(Not(sf(z)), sel[0] == sel[2])]
    TR = R_.TY(z); ch = [ForAll([j], bnbit(got(TR), j) == bnbit(S_.Y[0](z), j)), ForAll([j], bnbit(got(rcv(TR, BNLEN)), j) == bnbit(S_.Y[1](z), j))]
    hy = defs + eqr + ch + [z >= 0, z < n]
    O.append(lemma_obl('the receiver obtains exactly the selected message (its low m_bitlen bits)', hy, R_.res(z, j) == And(j >= 0, j < mb, If(sf(z), mf(z, IntVal(1), j), mf(z, IntVal(0), j)))))
    X.append(cover('OT extension result', hy))
    TS = Const('TS', Trace)
    O.append(lemma_obl('two numbers per message, in the same order on both sides', [], And(S_.step(TS, z) == snd(snd(TS, BNLEN, S_.Y[0](z)), BNLEN, S_.Y[1](z)), R_.step(T, z) == rcv(rcv(T, BNLEN), BNLEN))))
    return O, X
