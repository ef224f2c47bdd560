"""BIGNUM codecs and bit operations (C11): contracts of the OpenSSL calls, and of the functions of crypto/BN.cpp."""
from chan import *
from chan import Keep
bytebit = Function('bytebit', IntSort(), IntSort(), BoolSort())          # bit k of a byte
byteat = Function('byte_of_msg', Msg, IntSort(), IntSort())              # content of a byte-string message
BITI = ('i', 1)
def byteax(): 
    k = Int('bk'); return ForAll([k], Implies(And(k >= 0, k < 8), And(bytebit(255, k), bytebit(-1, k), Not(bytebit(0, k)))))
def inrange(ex, i, n): return And(i >= 0, i < n) if ex.mode == 'int' else And(ULT(i, n))
class BinToBN(Contract):
    """BN_bin2bn(p, n, a): a becomes the number whose big-endian bytes are p[0..n)"""
    name = 'BN_bin2bn'
    def apply(self, ex, st, args, tys, ats, ins):
        p, n, a = args
        if not isinstance(p, Ptr): raise Unsupported('BN_bin2bn of %r' % (p,))
        t = ex.ptype(p)
        if t[0] == 'vec':
            ex.oblige(st, 'call', 'BN_bin2bn reads exactly the block', And(n == 16))
            v = ex.load(st, p, t); rev = Concat(*[Extract(8 * k + 7, 8 * k, v) for k in range(16)])
            f = lambda *i: And(ULT(i[-1], 128), Extract(0, 0, LShR(rev, ZeroExt(64, i[-1]))) == 1)
        elif ex.mode == 'int':
            p = ex.descend(p, I(8)); lp, ix = ex.leaf(p)
            if ex.bounds and p.r.length is not None: ex.oblige(st, 'bounds', 'bytes read by BN_bin2bn in bounds', Implies(n > 0, And(ix[-1] >= 0, ix[-1] + n <= p.r.length)))
            m = ex.getmem(st, p.r, lp, I(8))
            f = lambda *i: And(i[-1] >= 0, i[-1] < 8 * n, bytebit(m.read(ix[:-1] + (ix[-1] + n - 1 - i[-1] / 8,)), i[-1] % 8))
        else: raise Unsupported('BN_bin2bn of bytes in bv mode')
        setall(ex, st, bn_one(ex, a), f)
        return Handle(ex.fresh('bnp', IntSort()))
class BNToBin(Contract):
    """BN_bn2bin(a, p): the BN_num_bytes(a) big-endian bytes of a"""
    name = 'BN_bn2bin'
    def apply(self, ex, st, args, tys, ats, ins):
        a, p = args
        n = nbits(ex, st, a); nb = simplify((n + 7) / 8) if ex.mode == 'int' else UDiv(n + 7, BitVecVal(8, 32))
        m = bn_mem(ex, st, a); pa = bn_one(ex, a).idx[:-1]
        if isinstance(p, Ptr) and p.r.ety is None: ex.set_type(p.r, I(8))
        p = ex.descend(p, I(8)); lp, ix = ex.leaf(p)
        if ex.mode == 'int':
            if ex.bounds and p.r.length is not None: ex.oblige(st, 'bounds', 'bytes written by BN_bn2bin in bounds', Implies(nb > 0, And(ix[-1] >= 0, ix[-1] + nb <= p.r.length)))
            f = ex.fresh_fn('bnbyte', IntSort(), IntSort()); q, k = Ints('bq bk')
            ex.axiom(st, ForAll([q, k], Implies(And(q >= 0, k >= 0, k < 8), bytebit(f(q), k) == m.read(pa + (8 * q + k,))), patterns=[bytebit(f(q), k)]))
            val = lambda i: f(nb - 1 - (i - ix[-1]))
            hi = ix[-1] + nb; ge = lambda x, y: x >= y
        else:
            nb64 = ZeroExt(32, nb)
            if ex.bounds and p.r.length is not None: ex.oblige(st, 'bounds', 'bytes written by BN_bn2bin in bounds', And(ULE(ix[-1], p.r.length), ULE(nb64, p.r.length - ix[-1])))
            def val(i):
                b = (nb64 - 1 - (i - ix[-1])) * 8
                return Concat(*[If(m.read(pa + (b + k,)), BitVecVal(1, 1), BitVecVal(0, 1)) for k in range(7, -1, -1)])
            hi = ix[-1] + nb64; ge = lambda x, y: UGE(x, y)
        old = ex.getmem(st, p.r, lp, I(8))
        w = Where(lambda *i: conj([x == y for x, y in zip(i[:-1], ix[:-1])] + [ge(i[-1], ix[-1]), Not(ge(i[-1], hi))]), Base(lambda *i: val(i[-1])), old)
        w.desc = [tuple(('pt', x) for x in ix[:-1]) + (('rng', ix[-1], simplify(hi)),)]
        ex.setmem(st, p.r, lp, I(8), w)
        return nb
def nbits(ex, st, a):
    """BN_num_bits: bits at and above it are 0, the one below it is 1"""
    p = bn_one(ex, a); m = bn_mem(ex, st, p); pa = tuple(p.idx[:-1])
    c = getattr(ex, 'nbits2', None)
    if c is None: c = ex.nbits2 = {}
    k = (m.id, p.r.id, tuple(x.get_id() for x in pa))
    if k not in c: c[k] = (ex.fresh('num_bits', IntSort() if ex.mode == 'int' else BitVecSort(32)), m)
    n = c[k][0]
    if ex.mode == 'int':
        ex.nn(n); j = Int('nbj')
        ex.axiom(st, And(n >= 0, ForAll([j], Implies(j >= n, Not(m.read(pa + (j,))))), Implies(n > 0, m.read(pa + (n - 1,)))))
    else:
        j = BitVec('nbj', 64)
        ex.axiom(st, And(ULT(n, 1 << 30), ForAll([j], Implies(UGE(j, ZeroExt(32, n)), Not(m.read(pa + (j,)))))))
    return n
class NumBits(Contract):
    name = 'BN_num_bits'
    def apply(self, ex, st, args, tys, ats, ins): return nbits(ex, st, args[0])
class MaskBits(Contract):
    """BN_mask_bits(a, n): drops the bits at and above n; may refuse (0, unchanged) when a is not longer than n"""
    name = 'BN_mask_bits'
    def apply(self, ex, st, args, tys, ats, ins):
        a, n = args; m = bn_mem(ex, st, a); b = nbits(ex, st, a)
        setall(ex, st, bn_one(ex, a), lambda *i: And(m.read(i), i[-1] < n))
        r = ex.fresh('maskret', IntSort()); ex.axiom(st, And(Or(r == 0, r == 1), Implies(n < b, r == 1)))
        return r
class Endian(Contract): pass
def isnull(p): return p is NULL

# ---------------------------------------------------------------- specifications of crypto/BN.cpp
class BSpec(Contract):
    bv = False
    def bn(self, ex, st, name):
        r = Region(name, BITI, None, 'param'); p = Ptr(r, (ex.zero(),))
        m = ex.getmem(st, r, (), BITI)
        return p, m
    def bit(self, st, p, i): return self.ex.getmem(st, p.r, (), BITI).read((i,))
class BlockToBNS(BSpec):
    name = 'BlockToBN'; params = ('a', 'w'); bv = True
    def setup(self, ex, st, fn):
        self.ex = ex; self.a, self.a0 = self.bn(ex, st, 'a'); self.w = BitVec('w', 128); return [self.a, self.w]
    def mods(self, k): return [('region', self.a.r)]
    def post(self, k):
        j = BitVec('j', 64)
        return [('bit %s of the number is bit j of the block' % lo, ForAll([j], Implies(And(UGE(j, lo), ULT(j, lo + 16)), self.bit(k.new, self.a, j) == (Extract(0, 0, LShR(self.w, ZeroExt(64, j))) == 1)))) for lo in range(0, 128, 16)] + \
               [('no other bit is set', ForAll([j], Implies(UGE(j, 128), Not(self.bit(k.new, self.a, j)))))]
class BNToBlockS(BSpec):
    name = 'BNToBlock'; params = ('a', 'w'); bv = True
    def setup(self, ex, st, fn):
        self.ex = ex; self.a, self.a0 = self.bn(ex, st, 'a'); r = Region('w', VEC, ex.ival(1), 'param'); self.w = Ptr(r, (ex.zero(),)); return [self.a, self.w]
    def mods(self, k): return [('region', self.w.r)]
    def post(self, k):
        v = self.ex.load(k.new, self.w, VEC)
        return [('bit %d of the block is bit %d of the number' % (j, j), (Extract(j, j, v) == 1) == self.a0.read((BitVecVal(j, 64),))) for j in range(128)]
class BitLoop(BSpec):
    params = ('v', 'bits')
    def loop(self, C, k):
        ex = self.ex; st = C.cur
        if C.iv is None: return []
        i = Int('bi'); n = C.iv
        now = ex.getmem(st, self.out.r, (), BITI)
        return [('bits done so far', ForAll([i], Implies(And(i >= 0, i < n), now.read((i,)) == self.spec(i)))),
                ('other bits unchanged', ForAll([i], Implies(Or(i < 0, i >= n), now.read((i,)) == self.o0.read((i,)))))]
    def mods(self, k): return [('region', self.out.r)]
    def post(self, k):
        i = Int('bi'); now = self.ex.getmem(k.new, self.out.r, (), BITI)
        return [('every bit below `bits` has its specified value', ForAll([i], Implies(And(i >= 0, i < self.n), now.read((i,)) == self.spec(i)))),
                ('bits above are unchanged', ForAll([i], Implies(Or(i < 0, i >= self.n), now.read((i,)) == self.o0.read((i,))))),
                ('reports success', k.result == 1)]
class InvertS(BitLoop):
    name = 'BN_invert'
    def setup(self, ex, st, fn):
        self.ex = ex; self.out, self.o0 = self.bn(ex, st, 'v'); self.n = ex.nn(Int('bits')); ex.axiom(st, self.n >= 0); return [self.out, self.n]
    def spec(self, i): return Not(self.o0.read((i,)))
class XorS(BitLoop):
    name = 'BN_xor'; params = ('r', 'bits', 'v', 'w')
    def __init__(self, alias=None): self.alias = alias; self.unit = 'BN_xor' + (', result in place of %s' % alias if alias else '')
    def setup(self, ex, st, fn):
        self.ex = ex; self.out, self.o0 = self.bn(ex, st, 'r'); self.v, self.v0 = (self.out, self.o0) if self.alias == 'v' else self.bn(ex, st, 'v'); self.w, self.w0 = (self.out, self.o0) if self.alias == 'w' else self.bn(ex, st, 'w')
        self.n = ex.nn(Int('bits')); ex.axiom(st, self.n >= 0); return [self.out, self.n, self.v, self.w]
    def spec(self, i): return Xor(self.v0.read((i,)), self.w0.read((i,)))
class FullOneS(BSpec):
    name = 'BN_full_one'; params = ('v', 'bits')
    def setup(self, ex, st, fn):
        self.ex = ex; self.v, _ = self.bn(ex, st, 'v'); self.n = ex.nn(Int('bits')); ex.axiom(st, self.n >= 0); return [self.v, self.n]
    def axioms(self, k): return [byteax()]
    def mods(self, k): return [('region', self.v.r)]
    def post(self, k):
        i = Int('bi')
        return [('exactly the bits below `bits` are set', ForAll([i], Implies(i >= 0, self.bit(k.new, self.v, i) == (i < self.n)))), ('reports success', k.result == 1)]

# ---------------------------------------------------------------- SendBN / RecvBN
class SendBytes(SendData):
    def apply(self, ex, st, args, tys, ats, ins):
        fd, p, n = args
        if is_num(n): return super().apply(ex, st, args, tys, ats, ins)
        p = ex.descend(p, I(8)); lp, ix = ex.leaf(p)
        ex.oblige(st, 'bounds', 'bytes sent in bounds', Implies(n > 0, And(ix[-1] >= 0, ix[-1] + n <= p.r.length)))
        m = ex.getmem(st, p.r, lp, I(8)); g = ex.fresh('msg', Msg); i = Int('qi')
        ex.axiom(st, ForAll([i], Implies(And(i >= 0, i < n), byteat(g, i) == m.read(ix[:-1] + (ix[-1] + i,))), patterns=[byteat(g, i)]))
        f = self.result(ex, st); T = tget(ex, st)
        tset(ex, st, If(f, T, snd(T, n, g))); ex.gset(st, 'last', g)
        return If(f, IntVal(-1), IntVal(0))
class RecvBytes(RecvData):
    def apply(self, ex, st, args, tys, ats, ins):
        fd, p, n = args
        if is_num(n): return super().apply(ex, st, args, tys, ats, ins)
        if p.r.ety is None: ex.set_type(p.r, I(8))
        p = ex.descend(p, I(8)); lp, ix = ex.leaf(p)
        ex.oblige(st, 'bounds', 'bytes received in bounds', Implies(n > 0, And(ix[-1] >= 0, ix[-1] + n <= p.r.length)))
        T = tget(ex, st); f = self.result(ex, st); part = ex.fresh_fn('partial', IntSort(), IntSort())
        old = ex.getmem(st, p.r, lp, I(8))
        w = Where(lambda *i: And(i[-1] >= ix[-1], i[-1] < ix[-1] + n), Base(lambda *i: If(f, part(i[-1]), byteat(got(T), i[-1] - ix[-1]))), old)
        w.desc = [(('rng', ix[-1], simplify(ix[-1] + n)),)]
        ex.setmem(st, p.r, lp, I(8), w)
        tset(ex, st, If(f, T, rcv(T, n)))
        return If(f, IntVal(-1), IntVal(0))
class SendBNS(BSpec):
    name = 'SendBN'; params = ('fd', 'a')
    def ghost_init(self, ex): return dict(ghosts0(ex), last=Const('nomsg', Msg))
    def setup(self, ex, st, fn):
        self.ex = ex; self.fd = Int('fd'); self.a, self.a0 = self.bn(ex, st, 'a'); return [self.fd, self.a]
    def post(self, k):
        ex = self.ex; st = k.new; f = ex.gget(st, 'failed'); M = ex.gget(st, 'last'); ok = Not(f)
        n = nbits(ex, st, self.a); nb = (n + 7) / 8; q, b = Ints('qq qb')
        return [('reports failure exactly when the channel failed', k.result == If(f, IntVal(-1), IntVal(0))),
                ('sends the length in bytes, then that many bytes', Implies(ok, Or(tget(ex, st) == snd(snd(T0, 4, mi(nb)), nb, M)))),
                ('the bytes are the number, most significant first', Implies(ok, ForAll([q, b], Implies(And(q >= 0, q < nb, b >= 0, b < 8), bytebit(byteat(M, nb - 1 - q), b) == self.a0.read((8 * q + b,)))))),
                ('the bytes cover the whole number', ForAll([q], Implies(q >= 8 * nb, Not(self.a0.read((q,))))))]
class RecvBNS(BSpec):
    name = 'RecvBN'; params = ('fd', 'a')
    def ghost_init(self, ex): return dict(ghosts0(ex), last=Const('nomsg', Msg))
    def setup(self, ex, st, fn):
        self.ex = ex; self.fd = Int('fd'); self.a, self.a0 = self.bn(ex, st, 'a'); self.n = ex.nn(mi_(got(T0))); self.M = got(rcv(T0, 4))
        ex.axiom(st, self.n >= 0); ex.note('the peer sends a non-negative length (semi-honest peer)')
        return [self.fd, self.a]
    def mods(self, k): return [('region', self.a.r)]
    def post(self, k):
        ex = self.ex; st = k.new; f = ex.gget(st, 'failed'); ok = Not(f); n = self.n; q, b = Ints('qq qb')
        return [('reports failure exactly when the channel failed', k.result == If(f, IntVal(-1), IntVal(0))),
                ('receives the length, then that many bytes', Implies(ok, tget(ex, st) == rcv(rcv(T0, 4), n))),
                ('the number is the one those bytes denote, most significant first', Implies(ok, ForAll([q, b], Implies(And(q >= 0, q < n, b >= 0, b < 8), self.bit(st, self.a, 8 * q + b) == bytebit(byteat(self.M, n - 1 - q), b))))),
                ('no higher bit is set', Implies(ok, ForAll([q], Implies(q >= 8 * n, Not(self.bit(st, self.a, q))))))]
def bnops(): return [x for x in BN_BITS() if x.name != 'BN_num_bits'] + [NumBits(), BinToBN(), BNToBin(), MaskBits()]
def bnreg(): return Registry().add(*bnops(), SendBytes(), RecvBytes(), *[Keep(n) for n in NAMES])
NAMES = ('BlockToBN', 'BNToBlock', 'BN_invert', 'BN_full_one', 'BN_xor', 'SendBN', 'RecvBN')
def bnspecs(): return [BlockToBNS(), BNToBlockS(), InvertS(), FullOneS(), XorS(), XorS('v'), XorS('w'), SendBNS(), RecvBNS()]
def bncompose():
    """what RecvBN stores is the number SendBN was given, whatever it is"""
    a = Function('sent_bit', IntSort(), BoolSort()); r = Function('received_bit', IntSort(), BoolSort()); M = Const('M', Msg); n, j, q, b = Ints('n j q b')
    sent = [n >= 0, ForAll([q, b], Implies(And(q >= 0, q < n, b >= 0, b < 8), bytebit(byteat(M, n - 1 - q), b) == a(8 * q + b))), ForAll([q], Implies(q >= 8 * n, Not(a(q))))]
    rec = [ForAll([q, b], Implies(And(q >= 0, q < n, b >= 0, b < 8), r(8 * q + b) == bytebit(byteat(M, n - 1 - q), b))), ForAll([q], Implies(q >= 8 * n, Not(r(q))))]
    inst = [j >= 0, j == 8 * (j / 8) + j % 8, a(8 * (j / 8) + j % 8) == a(j), r(8 * (j / 8) + j % 8) == r(j)]
    ii = [substitute_vars(f.body(), j % 8, j / 8) if f.num_vars() == 2 else substitute_vars(f.body(), j) for f in sent + rec if is_quantifier(f)]
    return [lemma_obl('SendBN and RecvBN: every bit received is the bit sent', sent + rec + inst + ii, a(j) == r(j))], [cover('SendBN/RecvBN composition', sent + rec + inst)]
