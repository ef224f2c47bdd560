"""Base oblivious transfer (C09): OTSendBN / OTRecvBN / OTSend / OTRecv over BIGNUMs as mathematical integers.
A BIGNUM is a heap object with one integer cell; OpenSSL's arithmetic is a set of contracts over uninterpreted number-theoretic functions."""
from chan import *
from chan import Keep
NUM = I(64)                                     # cell type of a BIGNUM's (unbounded) value; never wraps: only contracts touch it
B128 = BitVecSort(128)
Zi = IntSort()
modexp = Function('modexp', Zi, Zi, Zi, Zi); nnmod = Function('nnmod', Zi, Zi, Zi)
rnd = Function('random_draw', Zi, Zi)           # the k-th draw of BN_rand
bitof = Function('bit_of', Zi, Zi, BoolSort())
mbn = Function('msg_number', Zi, Msg); mbn_ = Function('number_of_msg', Msg, Zi)
b2n = Function('number_of_block', B128, Zi); n2b = Function('block_of_number', Zi, B128)
RN, RE, RD = Ints('rsa_n rsa_e rsa_d')
ots = Function('ot_send_bn', Trace, Zi, Trace); otr = Function('ot_recv_bn', Trace, Zi, Trace); otv = Function('ot_recv_value', Trace, Zi, Zi)
KEYBITS = 1024

def one(p):
    if isinstance(p, PtrAlt):
        a = [x for c, x in p.alts if x is not UNDEFP and x is not NULL]
        if len(a) == 1: p = a[0]
    return p
def val(ex, st, p):
    p = one(p); b = ex.bounds; ex.bounds = False
    try: return ex.load(st, p, NUM)
    finally: ex.bounds = b
def put(ex, st, p, v):
    p = one(p); b = ex.bounds; ex.bounds = False
    try: ex.store(st, p, NUM, v)
    finally: ex.bounds = b
class Op(Contract):
    def __init__(self, name, fn, ret=1): self.name, self.fn, self.retv = name, fn, ret
    def apply(self, ex, st, args, tys, ats, ins):
        r = self.fn(ex, st, *args)
        if r is not None: return r
        return IntVal(self.retv) if self.retv is not None else None
def dims(p): return None
class NNew(Contract):
    name = 'BN_new'
    def apply(self, ex, st, args, tys, ats, ins):
        fr = ex.cur_fr; r = ex.site(fr, ins)
        if r is None:
            r = Region('num%d' % next(ex.counter), NUM, ex.ival(1), 'heap')
            if ex.cutdepth > 0: r.dims = 2
            ex.newsite(fr, ins, r)
        if r.dims == 2:
            inst = ex.gget(st, 'hp'); ex.gset(st, 'hp', inst + 1); p = Ptr(r, (inst, ex.zero()))
        else: p = Ptr(r, (ex.zero(),))
        put(ex, st, p, IntVal(0))
        return p
def ax(ex, st, f): ex.axiom(st, f)
def n_rand(ex, st, p, bits, top, bottom):
    ex.oblige(st, 'call', 'random values have at least the key size', bits >= KEYBITS)
    ex.oblige(st, 'call', 'random values are unconstrained (top = -1, bottom = 0)', And(sgn(top) == -1, bottom == 0))
    k = ex.gget(st, 'draws'); ex.gset(st, 'draws', k + 1)
    ax(ex, st, rnd(k) >= 0); put(ex, st, p, rnd(k))
def sgn(x):
    if is_num(x) and x.as_long() >= 1 << 31: return IntVal(x.as_long() - (1 << 32))
    return x
def n_modexp(ex, st, r, a, e, n, ctx):
    v = modexp(val(ex, st, a), val(ex, st, e), val(ex, st, n)); ax(ex, st, v >= 0); put(ex, st, r, v)
def n_nnmod(ex, st, r, a, n, ctx):
    m = val(ex, st, n); v = nnmod(val(ex, st, a), m); ax(ex, st, And(v >= 0, Implies(m > 0, v < m))); put(ex, st, r, v)
def n_isset(ex, st, a, i): return If(bitof(val(ex, st, a), i), IntVal(1), IntVal(0))
def n_setbit(ex, st, a, i):
    v = val(ex, st, a); w = ex.fresh('set_bit', Zi); j = Int('sbj')
    ax(ex, st, And(Implies(v >= 0, w >= 0), ForAll([j], bitof(w, j) == Or(j == i, bitof(v, j)), patterns=[bitof(w, j)]))); put(ex, st, a, w)
def n_send(ex, st, fd, a):
    v = val(ex, st, a); T = tget(ex, st)
    ex.oblige(st, 'call', 'a number sent is not negative (SendBN transfers the magnitude)', v >= 0)
    f = Chan().result(ex, st); tset(ex, st, If(f, T, snd(T, BNLEN, mbn(v))))
    return If(f, IntVal(-1), IntVal(0))
def n_recv(ex, st, fd, a):
    T = tget(ex, st); f = Chan().result(ex, st); v = mbn_(got(T)); ax(ex, st, v >= 0)
    put(ex, st, a, If(f, ex.fresh('partial', Zi), v)); tset(ex, st, If(f, T, rcv(T, BNLEN)))
    return If(f, IntVal(-1), IntVal(0))
def b_to(ex, st, a, w):
    ax(ex, st, b2n(w) >= 0); put(ex, st, a, b2n(w))
def b_from(ex, st, a, w): ex.store(st, w, VEC, n2b(val(ex, st, a)))
def rsa_gen(ex, st, rsa, bits, e, cb):
    ex.oblige(st, 'call', 'the RSA key has the mask size', bits == KEYBITS)
    ax(ex, st, And(RE == val(ex, st, e), RN > 0, RE > 0, RD > 0))
    ex.gset(st, 'rsa', IntVal(1))
def rsa_get(ex, st, rsa, pn, pe, pd):
    ex.oblige(st, 'call', 'the key has been generated', ex.gget(st, 'rsa') == 1)
    for nm, v, q in (('n', RN, pn), ('e', RE, pe), ('d', RD, pd)):
        c = getattr(ex, 'rsareg', None)
        if c is None: c = ex.rsareg = {}
        if nm not in c: c[nm] = Region('rsa_' + nm, NUM, ex.ival(1), 'heap')
        p = Ptr(c[nm], (ex.zero(),)); put(ex, st, p, v); ex.store(st, q, PTR, p)
def handle(nm): return lambda ex, st, *a: Handle(ex.fresh(nm, Zi), nm)
def none(ex, st, *a): return None
def arith():
    return [NNew(), Op('BN_free', none, None), Op('BN_clear_free', none, None), Op('BN_set_word', lambda ex, st, a, w: put(ex, st, a, w)), Op('BN_rand', n_rand),
            Op('BN_sub', lambda ex, st, r, a, b: put(ex, st, r, val(ex, st, a) - val(ex, st, b))), Op('BN_add', lambda ex, st, r, a, b: put(ex, st, r, val(ex, st, a) + val(ex, st, b))),
            Op('BN_mod_exp', n_modexp), Op('BN_nnmod', n_nnmod), Op('BN_copy', lambda ex, st, r, a: put(ex, st, r, val(ex, st, a)) or r), Op('BN_is_bit_set', n_isset), Op('BN_set_bit', n_setbit),
            Op('BN_CTX_new', handle('ctx')), Op('BN_CTX_free', none, None), Op('RSA_new', handle('rsa')), Op('RSA_free', none, None), Op('RSA_check_key', none), Op('RSA_generate_key_ex', rsa_gen), Op('RSA_get0_key', rsa_get),
            Op('SendBN', n_send), Op('RecvBN', n_recv), Op('BlockToBN', b_to, None), Op('BNToBlock', b_from, None), SendData(), RecvData()]

def seqax(ex, st, F, step, i, stage):
    if stage == 'step': ex.axiom(st, F(i) == step(F(simplify(i - 1)), simplify(i - 1)))
def alloc_inv(ex, st, reg, n, base=None):
    """pointers reg[0..n) are initialised, existing, pairwise distinct allocations"""
    q, p = Ints('aq ap'); out = []
    m = ex.getmem(st, reg, (), PTR)
    rg = And(q >= 0, q < n)
    out.append(('%s allocated' % 'array', ForAll([q], Implies(rg, ex.initialised(m, (q,))))))
    v = one(m.read((q,))); w = one(m.read((p,)))
    if isinstance(v, Ptr) and v.r.dims == 2:
        out.append(('%s: existing allocations' % 'array', ForAll([q], Implies(rg, And(v.idx[0] < ex.gget(st, 'hp'), v.idx[0] >= ex.ghost_init['hp'], v.idx[-1] == 0)))))
        if isinstance(w, Ptr): out.append(('distinct allocations', ForAll([q, p], Implies(And(rg, p > q, p < n), v.idx[0] < w.idx[0]))))
    return out
def pairs_inv(ex, st, reg, n, vals):
    """reg[q] points to an array of two BIGNUM pointers with values vals(q, j), for q < n"""
    q = Int('xq'); rg = And(q >= 0, q < n); out = alloc_inv(ex, st, reg, n)
    b = ex.bounds; ex.bounds = False
    try:
        pq = one(ex.getmem(st, reg, (), PTR).read((q,)))
        if isinstance(pq, Ptr):
            for j in (0, 1):
                pj = ex.gep(pq, PTR, [IntVal(j)])
                lp, ix = ex.leaf(ex.descend(pj, PTR)); m2 = ex.getmem(st, pj.r, lp, PTR)
                out.append(('element %d of every pair allocated' % j, ForAll([q], Implies(rg, ex.initialised(m2, ix)))))
                v = one(ex.load(st, pj, PTR))
                if isinstance(v, Ptr) and v.r.ety is not None:
                    if v.r.dims == 2: out.append(('element %d: existing allocation' % j, ForAll([q], Implies(rg, And(v.idx[0] < ex.gget(st, 'hp'), v.idx[0] >= ex.ghost_init['hp'], v.idx[-1] == 0)))))
                    out.append(('value %d of every pair' % j, ForAll([q], Implies(rg, val(ex, st, v) == vals(q, j)))))
    finally: ex.bounds = b
    return out
def singles_inv(ex, st, reg, n, vals):
    q = Int('xq'); rg = And(q >= 0, q < n); out = alloc_inv(ex, st, reg, n)
    v = one(ex.getmem(st, reg, (), PTR).read((q,)))
    if isinstance(v, Ptr): out.append(('value of every element', ForAll([q], Implies(rg, val(ex, st, v) == vals(q)))))
    return out
def arrays(ex, C):
    """arrays of pointers (one allocation each) written by the loop or its enclosing loop"""
    wr = {}
    for D in (C, C.parent):
        if D is not None: wr.update(D.written)
    return [r for r in wr.values() if r.ety == ('ptr',) and r.dims == 1 and r.kind == 'heap']
def pointee(ex, st, r):
    """region the elements of pointer array r point to, as known in the loop's havoc state"""
    v = one(ex.getmem(st, r, (), PTR).read((Int('xq'),)))
    return v.r if isinstance(v, Ptr) else None

class OTS(Contract):
    def ghost_init(self, ex): return dict(ghosts0(ex), draws=Int('draws0'), rsa=IntVal(0))
    ghost_mono = ('draws',)
    def common(self, ex): self.ex = ex; self.n = ex.nn(Int('m_len')); self.fd = Int('connfd')
    def F(self, n): return Function('ot_%s_%s' % (self.name, n), Zi, Trace)
class OTSendBNS(OTS):
    name = 'OTSendBN'; params = ('m', 'm_len', 'connfd')
    def setup(self, ex, st, fn):
        self.common(ex); self.X, self.V = self.F('masks'), self.F('values')
        self.mr = Region('m', PTR, self.n, 'param'); self.mrow = Region('m_row', PTR, ex.ival(2), 'param', dims=2); self.mbn = Region('m_num', NUM, ex.ival(1), 'param', dims=3)
        z = ex.zero()
        self.mr.ptr_shape[()] = lambda i: Ptr(self.mrow, (i, z)); self.mrow.ptr_shape[()] = lambda i, j: Ptr(self.mbn, (i, j, z))
        self.m0 = ex.getmem(st, self.mbn, (), NUM)
        i, j = Ints('mi mj'); ex.axiom(st, And(self.n >= 0, ForAll([i, j], self.m0.read((i, j, z)) >= 0)))
        self.d0 = ex.ghost_init['draws']
        T = snd(snd(snd(T0, 4, mi(self.n)), BNLEN, mbn(RN)), BNLEN, mbn(RE))
        ex.axiom(st, And(self.X(0) == T, self.V(0) == self.X(self.n)))
        return [Ptr(self.mr, (z,)), self.n, self.fd]
    def msg(self, i, j): return self.m0.read((i, IntVal(j), IntVal(0)))
    def x(self, i, j): return rnd(self.d0 + 2 * i + j)
    def xstep(self, T, i): return snd(snd(T, BNLEN, mbn(self.x(i, 0))), BNLEN, mbn(self.x(i, 1)))
    def reply(self, v, i, j): return modexp(v - self.x(i, j), RD, RN) + self.msg(i, j)
    def vstep(self, T, i):
        v = mbn_(got(T)); T = rcv(T, BNLEN)
        return snd(snd(T, BNLEN, mbn(self.reply(v, i, 0))), BNLEN, mbn(self.reply(v, i, 1)))
    def loop(self, C, k):
        ex = self.ex; st = C.cur; i = C.iv
        if i is None: return []
        out = []
        if C.calls & {'SendBN', 'RecvBN', 'BN_rand'}: out.append(('no failure so far', Not(ex.gget(st, 'failed'))))
        if 'RecvBN' in C.calls:
            seqax(ex, st, self.V, self.vstep, i, C.stage); out.append(('trace', tget(ex, st) == self.V(i)))
        elif 'SendBN' in C.calls:
            seqax(ex, st, self.X, self.xstep, i, C.stage); out.append(('trace', tget(ex, st) == self.X(i)))
        if 'BN_rand' in C.calls:
            out.append(('two draws per message', ex.gget(st, 'draws') == self.d0 + 2 * i))
            for r in arrays(ex, C): out += pairs_inv(ex, st, r, i, self.x)
        return out
    def post(self, k):
        ex = self.ex; st = k.new; f = ex.gget(st, 'failed')
        return [('reports failure exactly when the channel failed', k.result == If(f, IntVal(-1), IntVal(0))),
                ('sends the length, the public key, two fresh masks per message, and for every value received m_j + (v - x_j)^d', Implies(Not(f), tget(ex, st) == self.V(self.n)))]
class OTRecvBNS(OTS):
    name = 'OTRecvBN'; params = ('sel', 'm_len', 'connfd', 'm')
    def setup(self, ex, st, fn):
        self.common(ex); self.X, self.V, self.M = self.F('masks'), self.F('values'), self.F('replies'); z = ex.zero()
        self.sr = Region('sel', NUM, ex.ival(1), 'param'); self.sel = ex.getmem(st, self.sr, (), NUM).read((z,))
        self.mr = Region('m', PTR, self.n, 'param'); self.mbn = Region('m_num', NUM, ex.ival(1), 'param', dims=2)
        self.mr.ptr_shape[()] = lambda i: Ptr(self.mbn, (i, z)); self.m0 = ex.getmem(st, self.mbn, (), NUM)
        self.d0 = ex.ghost_init['draws']
        T = rcv(T0, 4); self.nn_ = mbn_(got(T)); T = rcv(T, BNLEN); self.ee = mbn_(got(T)); T = rcv(T, BNLEN)
        ex.axiom(st, And(self.n >= 0, self.X(0) == T, self.V(0) == self.X(self.n), self.M(0) == self.V(self.n)))
        return [Ptr(self.sr, (z,)), self.n, self.fd, Ptr(self.mr, (z,))]
    def b(self, i): return bitof(self.sel, i)
    def x(self, i, j): return mbn_(got(self.X(i))) if j == 0 else mbn_(got(rcv(self.X(i), BNLEN)))
    def kk(self, i): return nnmod(rnd(self.d0 + i), self.nn_)
    def v(self, i): return nnmod(If(self.b(i), self.x(i, 1), self.x(i, 0)) + modexp(self.kk(i), self.ee, self.nn_), self.nn_)
    def xstep(self, T, i): return rcv(rcv(T, BNLEN), BNLEN)
    def vstep(self, T, i): return snd(T, BNLEN, mbn(self.v(i)))
    def res(self, i):
        T = self.M(i); return If(self.b(i), mbn_(got(rcv(T, BNLEN))), mbn_(got(T))) - self.kk(i)
    def loop(self, C, k):
        ex = self.ex; st = C.cur; i = C.iv
        if i is None: return []
        out = []; q = Int('rq'); cs = C.calls
        if cs & {'SendBN', 'RecvBN', 'BN_rand'}: out.append(('no failure so far', Not(ex.gget(st, 'failed'))))
        wm = self.mbn.id in C.written
        if 'RecvBN' in cs and wm:
            seqax(ex, st, self.M, self.xstep, i, C.stage); out.append(('trace', tget(ex, st) == self.M(i)))
            m = ex.getmem(st, self.mbn, (), NUM)
            out += [('messages recovered so far', ForAll([q], Implies(And(q >= 0, q < i), m.read((q, IntVal(0))) == self.res(q)))),
                    ('other messages untouched', ForAll([q], Implies(q >= i, m.read((q, IntVal(0))) == self.m0.read((q, IntVal(0))))))]
        elif 'RecvBN' in cs:
            seqax(ex, st, self.X, self.xstep, i, C.stage); out.append(('trace', tget(ex, st) == self.X(i)))
            for r in arrays(ex, C):
                if self.paired(C, r): out += pairs_inv(ex, st, r, i, self.x)
        if 'SendBN' in cs:
            seqax(ex, st, self.V, self.vstep, i, C.stage); out.append(('trace', tget(ex, st) == self.V(i)))
        if 'BN_rand' in cs:
            out.append(('one draw per message', ex.gget(st, 'draws') == self.d0 + i))
            for r in arrays(ex, C):
                if not self.paired(C, r): out += singles_inv(ex, st, r, i, self.kk)
        return out
    def paired(self, C, r):
        m = C.dry_back.mem.get((r.id, ()))
        v = one(m.read((Int('xq'),))) if m is not None else None
        while isinstance(m, Store) and not isinstance(v, Ptr): v = one(m.val); m = m.prev
        return isinstance(v, Ptr) and v.r.ety == ('ptr',)
    def mods(self, k): return [('region', self.mbn)]
    def post(self, k):
        ex = self.ex; st = k.new; f = ex.gget(st, 'failed'); q = Int('rq'); m = ex.getmem(st, self.mbn, (), NUM)
        eq = mi_(got(T0)) == self.n; ok = And(Not(f), eq)
        return [('reports failure exactly when the channel failed or the lengths differ', k.result == If(Or(f, Not(eq)), IntVal(-1), IntVal(0))),
                ('receives length, key and masks, sends one blinded value per message, receives the replies', Implies(ok, tget(ex, st) == self.M(self.n))),
                ('stores reply_sel - k for every message', Implies(ok, ForAll([q], Implies(And(q >= 0, q < self.n), m.read((q, IntVal(0))) == self.res(q))))),
                ('nothing but the m_len messages is written', ForAll([q], Implies(Or(q < 0, q >= self.n), m.read((q, IntVal(0))) == self.m0.read((q, IntVal(0))))))]

# ---------------------------------------------------------------- block wrappers
class CalleeSend(Chan):
    """OTSendBN / OTExtSendBN as a callee: its messages must be the caller's blocks, as numbers"""
    def __init__(self, D, name): self.D, self.name = D, name
    def apply(self, ex, st, args, tys, ats, ins):
        D = self.D; m, n = args[0], args[-2]
        if len(args) == 4: ex.oblige(st, 'call', 'messages are 128 bits long', args[1] == 128)
        ex.oblige(st, 'call', 'the connection is the caller\'s', args[-1] == D.fd)
        ex.oblige(st, 'call', 'one message pair per block pair', n == D.n)
        q = ex.fresh('q', Zi); pre = [q >= 0, q < n]
        for j in (0, 1):
            p = ex.load(st, ex.gep(ex.load(st, ex.gep(m, PTR, [q]), PTR), PTR, [IntVal(j)]), PTR) if False else self.ptr(ex, st, m, q, j, pre)
            ex.oblige(st, 'call', 'message %d of every pair is block %d of that pair' % (j, j), val(ex, st, p) == b2n(D.block(q, j)), pre)
        f = self.result(ex, st); T = tget(ex, st); tset(ex, st, If(f, T, ots(T, n)))
        return If(f, IntVal(-1), IntVal(0))
    def ptr(self, ex, st, m, q, j, pre):
        b = ex.bounds; ex.bounds = False
        try:
            for k in (None, j):
                p = ex.descend(ex.gep(m, PTR, [q if k is None else IntVal(k)]), PTR); lp, ix = ex.leaf(p); mm = ex.getmem(st, p.r, lp, PTR)
                ex.oblige(st, 'deref', 'message pointers passed on are initialised', ex.initialised(mm, ix), pre)
                m = one(ex.load(st, p, PTR))
            return m
        finally: ex.bounds = b
class CalleeRecv(Chan):
    def __init__(self, D, name): self.D, self.name = D, name
    def apply(self, ex, st, args, tys, ats, ins):
        D = self.D; sel, n, fd, m = args[0], args[-3], args[-2], args[-1]
        if len(args) == 5: ex.oblige(st, 'call', 'messages are 128 bits long', args[1] == 128)
        ex.oblige(st, 'call', 'the connection is the caller\'s', fd == D.fd)
        ex.oblige(st, 'call', 'one message per selection bit', n == D.n)
        q = ex.fresh('q', Zi); pre = [q >= 0, q < n]
        ex.oblige(st, 'call', 'bit q of the selection number is selection bit q', bitof(val(ex, st, sel), q) == D.s(q), pre)
        b = ex.bounds; ex.bounds = False
        p = ex.descend(m, PTR); lp, ix = ex.leaf(p); mm = ex.getmem(st, p.r, lp, PTR)
        f = self.result(ex, st); T = tget(ex, st)
        if len(args) == 4:      # base OT: the caller's BIGNUMs receive the values
            ex.oblige(st, 'deref', 'result pointers passed on are initialised', ex.initialised(mm, (q,)), pre)
            v = one(mm.read((q,))); q2 = ex.fresh('q', Zi); v2 = one(mm.read((q2,)))
            if not isinstance(v, Ptr) or len(v.idx) != 2: raise Unsupported('result array of the OT')
            ex.oblige(st, 'call', 'the results are distinct numbers', v.idx[0] != v2.idx[0], pre + [q2 >= 0, q2 < n, q != q2])
            old = ex.getmem(st, v.r, (), NUM); g = ex.fresh_fn('ot_out', Zi, Zi, Zi); ex.setmem(st, v.r, (), NUM, Base(lambda *i: g(*i)))
            r = Int('or'); vr = one(mm.read((r,))); ex.axiom(st, ForAll([r], Implies(And(r >= 0, r < n), g(*vr.idx) == If(f, ex.fresh_fn('partial', Zi, Zi)(r), otv(T, r)))))
        else:                   # extension: every element becomes a number of its own
            rg = Region('otext_out', NUM, ex.ival(1), 'heap', dims=2); new = Base(lambda *i: Ptr(rg, (i[-1], ex.zero())), 'out'); new.shape = Ptr(rg, (ex.zero(), ex.zero()))
            w = Where(lambda *i: And(i[-1] >= 0, i[-1] < n, Not(f)), new, mm); w.desc = [(('rng', IntVal(0), n),)]
            ex.setmem(st, p.r, lp, PTR, w)
            ex.setmem(st, rg, (), NUM, Base(lambda *i: otv(T, i[0])))
        ex.bounds = b
        tset(ex, st, If(f, T, otr(T, n)))
        return If(f, IntVal(-1), IntVal(0))
class WSend(OTS):
    params = ('m', 'm_len', 'connfd')
    def __init__(self, name): self.name = name
    def setup(self, ex, st, fn):
        self.common(ex); z = ex.zero(); ex.axiom(st, self.n >= 0)
        self.mr = Region('m', PTR, self.n, 'param'); self.blk = Region('m_blk', VEC, ex.ival(2), 'param', dims=2); self.mr.ptr_shape[()] = lambda i: Ptr(self.blk, (i, z))
        self.b0 = ex.getmem(st, self.blk, (), VEC)
        return [Ptr(self.mr, (z,)), self.n, self.fd]
    def block(self, q, j): return self.b0.read((q, IntVal(j)))
    def loop(self, C, k):
        ex = self.ex; st = C.cur
        if C.iv is None: return []
        out = []
        if 'BlockToBN' in C.calls:
            for r in arrays(ex, C): out += pairs_inv(ex, st, r, C.iv, lambda q, j: b2n(self.block(q, j)))
        return out
    def post(self, k):
        ex = self.ex; f = ex.gget(k.new, 'failed')
        return [('reports failure exactly when the transfer failed', k.result == If(f, IntVal(-1), IntVal(0))),
                ('performs exactly one transfer of m_len pairs', Implies(Not(f), tget(ex, k.new) == ots(T0, self.n)))]
class WRecv(OTS):
    params = ('sel', 'm_len', 'connfd', 'm')
    def __init__(self, name): self.name = name
    def setup(self, ex, st, fn):
        self.common(ex); z = ex.zero(); ex.axiom(st, self.n >= 0)
        self.sr = Region('sel', I(8), self.n, 'param'); self.s0 = ex.getmem(st, self.sr, (), I(8)); self.mr = Region('m', VEC, self.n, 'param'); self.m0 = ex.getmem(st, self.mr, (), VEC)
        i = Int('si'); ex.axiom(st, ForAll([i], And(self.s0.read((i,)) >= 0, self.s0.read((i,)) <= 1)))
        return [Ptr(self.sr, (z,)), self.n, self.fd, Ptr(self.mr, (z,))]
    def axioms(self, k):
        j = Int('sbj'); return [ForAll([j], Not(bitof(0, j)))]
    def s(self, q): return self.s0.read((q,)) != 0
    def loop(self, C, k):
        ex = self.ex; st = C.cur; i = C.iv; q = Int('wq')
        if i is None: return []
        out = []
        if self.mr.id in C.written:
            m = ex.getmem(st, self.mr, (), VEC); w = self.out(ex)
            out += [('blocks stored so far', ForAll([q], Implies(And(q >= 0, q < i), m.read((q,)) == w(q)))), ('other blocks untouched', ForAll([q], Implies(q >= i, m.read((q,)) == self.m0.read((q,)))))]
        if 'BN_new' in C.calls:
            for r in arrays(ex, C): out += alloc_inv(ex, st, r, i)
        if 'BN_set_bit' in C.calls:
            for r in C.written.values():
                if r.ety == NUM and r.dims == 1:
                    v = ex.getmem(st, r, (), NUM).read((IntVal(0),))
                    out.append(('selection bits set so far', ForAll([q], bitof(v, q) == And(q >= 0, q < i, self.s(q)))))
        return out
    def out(self, ex): return lambda q: n2b(otv(T0, q))
    def mods(self, k): return [('region', self.mr)]
    def post(self, k):
        ex = self.ex; st = k.new; f = ex.gget(st, 'failed'); q = Int('wq'); m = ex.getmem(st, self.mr, (), VEC)
        return [('reports failure exactly when the transfer failed', k.result == If(f, IntVal(-1), IntVal(0))),
                ('performs exactly one transfer of m_len messages', Implies(Not(f), tget(ex, st) == otr(T0, self.n))),
                ('every block is the one received', Implies(Not(f), ForAll([q], Implies(And(q >= 0, q < self.n), m.read((q,)) == n2b(otv(T0, q)))))),
                ('nothing but the m_len blocks is written', ForAll([q], Implies(Or(q < 0, q >= self.n), m.read((q,)) == self.m0.read((q,)))))]
def wreg(c, callee): return Registry().add(*arith(), Keep(c.name), (CalleeSend if 'Send' in c.name else CalleeRecv)(c, callee))

def otcompose():
    """sender and receiver over a faithful channel, with a correct RSA key: the receiver's result is exactly m_sel, and both sides' message sequences are dual"""
    O = []; X = []
    i, xa, xb, kr, m0, m1, v = Ints('i x0 x1 k_draw m0 m1 v'); b = Bool('sel'); TS, TR = Consts('TS TR', Trace)
    S_, R_ = OTSendBNS(), OTRecvBNS()
    # receiver side terms
    k = nnmod(kr, RN); xs = If(b, xb, xa); vv = nnmod(xs + modexp(k, RE, RN), RN)
    # RSA: (nnmod(x + k^e, n) - x)^d = k (mod n), for 0 <= k < n   (key correctness: assumption on OpenSSL's key generation)
    rsa = [RN > 0, k >= 0, k < RN, modexp(vv - xs, RD, RN) == k]
    d0, d1 = modexp(v - xa, RD, RN) + m0, modexp(v - xb, RD, RN) + m1
    inj = [mbn_(mbn(t)) == t for t in (xa, xb, vv, d0, d1)]
    ch = [v == mbn_(mbn(vv))]
    got0, got1 = mbn_(mbn(d0)), mbn_(mbn(d1))
    hy = rsa + inj + ch
    O.append(lemma_obl('base OT: the receiver recovers exactly the selected message', hy, If(b, got1, got0) - k == If(b, m1, m0)))
    X.append(cover('base OT', hy))
    # duality of each phase (same number of messages of the same kind, opposite directions)
    for F in (S_, R_): F.n = Int('m_len'); F.d0 = Int('d'); F.m0 = Base(lambda *a: Function('m0', Zi, Zi, Zi, Zi)(*a)); F.X, F.V, F.M = F.F('masks'), F.F('values'), F.F('replies'); F.sel = Int('selnum'); F.nn_, F.ee = RN, RE
    O.append(lemma_obl('base OT: masks sent are masks received', [], And(S_.xstep(TS, i) == snd(snd(TS, BNLEN, mbn(S_.x(i, 0))), BNLEN, mbn(S_.x(i, 1))), R_.xstep(TR, i) == rcv(rcv(TR, BNLEN), BNLEN))))
    w = mbn_(got(TS))
    O.append(lemma_obl('base OT: one value, then two replies per message', [], And(S_.vstep(TS, i) == snd(snd(rcv(TS, BNLEN), BNLEN, mbn(S_.reply(w, i, 0))), BNLEN, mbn(S_.reply(w, i, 1))), R_.vstep(TR, i) == snd(TR, BNLEN, mbn(R_.v(i))))))
    # blocks: the wrapper's block is the sender's block
    B0, B1 = Consts('B0 B1', B128); r = Int('r')
    hb = [n2b(b2n(B0)) == B0, n2b(b2n(B1)) == B1, r == If(b, b2n(B1), b2n(B0))]
    O.append(lemma_obl('block OT: the receiver obtains exactly the selected block', hb, n2b(r) == If(b, B1, B0)))
    X.append(cover('block OT', hb))
    return O, X
