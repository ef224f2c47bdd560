"""Channel (ghost trace), BIGNUM-as-bits and std::string contracts shared by the protocol specs (int mode)."""
import os, sys
from z3 import *
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'engine'))
import build
from contracts import *
from vc import Exec, State, Obl
from mem import *

Trace = DeclareSort('Trace'); Msg = DeclareSort('Msg')
snd = Function('snd', Trace, IntSort(), Msg, Trace)        # send `len` bytes with content
rcv = Function('rcv', Trace, IntSort(), Trace)             # receive `len` bytes
got = Function('got', Trace, Msg)                          # content received by the rcv at this point
mi = Function('msg_int', IntSort(), Msg); mi_ = Function('msg_int_inv', Msg, IntSort())
mb = Function('msg_block', BitVecSort(128), Msg); mb_ = Function('msg_block_inv', Msg, BitVecSort(128))
mn = Function('msg_bn', IntSort(), Msg)                    # content of a BIGNUM region, by identity
T0 = Const('trace0', Trace)
SNDL = Function('snd_len', IntSort(), IntSort())
BNLEN = IntVal(-1)                                         # pseudo length of a BIGNUM message

def tget(ex, st): return ex.gget(st, 'T')
def tset(ex, st, t): ex.gset(st, 'T', t)
def fail_flag(ex, st, c):
    """a channel operation failed under condition c"""
    ex.gset(st, 'failed', simplify(Or(ex.gget(st, 'failed'), c)))

class Chan(Contract):
    def result(self, ex, st):
        f = ex.fresh('io_fail', BoolSort())
        fail_flag(ex, st, f)
        return f
    def leafty(self, ex, p, n):
        """type of the single object of n bytes at p"""
        if isinstance(p, PtrAlt): p = p.alts[0][1]
        if not isinstance(p, Ptr): raise Unsupported('channel buffer %r' % (p,))
        if not is_num(n): raise Unsupported('channel transfer of symbolic length')
        n = n.as_long()
        t = ex.ptype(p) if p.r.ety is not None else None
        if t is None: return VEC if n == 16 else I(8 * n)
        while ex.is_struct(t) or t[0] == 'arr': t = ex.fields(t)[0] if ex.is_struct(t) else t[2]
        if ex.sizeof(t) != n: raise Unsupported('channel transfer of %d bytes of %r' % (n, t))
        return t
class SendData(Chan):
    """SendData(fd, p, n): the peer's stream receives exactly the n bytes at p, or the call fails (verified by C12)"""
    name = 'SendData'; params = ('fd', 'p', 'n')
    def apply(self, ex, st, args, tys, ats, ins):
        fd, p, n = args
        t = self.leafty(ex, p, n)
        v = ex.load(st, p, t)
        m = mb(v) if t[0] == 'vec' else mi(v)
        f = self.result(ex, st)
        tset(ex, st, ite(f, tget(ex, st), snd(tget(ex, st), n, m)))
        return If(f, IntVal(-1), IntVal(0))
class RecvData(Chan):
    name = 'RecvData'; params = ('fd', 'p', 'n')
    def apply(self, ex, st, args, tys, ats, ins):
        fd, p, n = args
        t = self.leafty(ex, p, n)
        T = tget(ex, st)
        f = self.result(ex, st)
        m = got(T)
        v = mb_(m) if t[0] == 'vec' else mi_(m)
        old = ex.fresh('partial', v.sort())
        ex.store(st, p, t, ite(f, old, v))
        tset(ex, st, ite(f, T, rcv(T, n)))
        return If(f, IntVal(-1), IntVal(0))

# ---------------------------------------------------------------- BIGNUMs as bit regions
hexbit = Function('hexbit', IntSort(), IntSort(), BoolSort())
def bn_region(ex, name, shape=None, kind='param'):
    r = Region(name, ('i', 1), None, kind)
    if shape: r.extra['shape'] = shape
    return r, Ptr(r, (ex.zero(),))
def bn_one(ex, p):
    if isinstance(p, PtrAlt):
        a = [x for c, x in p.alts if x is not UNDEFP]
        if len(a) == 1: p = a[0]
    if not isinstance(p, Ptr): raise Unsupported('BIGNUM %r' % (p,))
    return p
def bn_cell(ex, p, i):
    p = bn_one(ex, p)
    return Ptr(p.r, p.idx[:-1] + (i,), ())
def bn_mem(ex, st, p): return ex.getmem(st, bn_one(ex, p).r, (), ('i', 1))
def bn_bit(ex, st, p, i):
    b = ex.bounds; ex.bounds = False
    r = ex.load(st, bn_cell(ex, p, i), ('i', 1)); ex.bounds = b
    return r
class BNNew(Contract):
    name = 'BN_new'
    def apply(self, ex, st, args, tys, ats, ins):
        fr = ex.cur_fr
        r = ex.site(fr, ins)
        if r is None:
            r = Region('bn%d' % next(ex.counter), ('i', 1), None, 'heap'); r.zero = True
            if ex.cutdepth > 0: r.dims = 2
            ex.newsite(fr, ins, r)
        if r.dims == 2:
            inst = ex.gget(st, 'hp'); ex.gset(st, 'hp', inst + 1)
            return Ptr(r, (inst, ex.zero()))
        return Ptr(r, (ex.zero(),))
class BNFree(Contract):
    name = 'BN_free'
    def apply(self, ex, st, args, tys, ats, ins): return None
class BNZero(Contract):
    name = 'BN_zero_ex'
    def apply(self, ex, st, args, tys, ats, ins):
        p = bn_one(ex, args[0]); F = BoolVal(False)
        setall(ex, st, p, lambda *i: F)
        return None
def setall(ex, st, p, fn):
    """replace the whole value of the BIGNUM at p"""
    old = bn_mem(ex, st, p); base = Base(fn)
    if p.r.dims == 2:
        w = Where(lambda *i: i[0] == p.idx[0], base, old)
        w.desc = [(('pt', p.idx[0]),) + (('any',),) * (1 + len(p.r.extra.get('shape', ())))]
        base = w
    ex.setmem(st, p.r, (), ('i', 1), base)
class BNHex(Contract):
    name = 'BN_hex2bn'
    def apply(self, ex, st, args, tys, ats, ins):
        p = ex.load(st, args[0], PTR)
        if not isinstance(args[1], Handle): raise Unsupported('BN_hex2bn of %r' % (args[1],))
        h = args[1].t
        setall(ex, st, bn_one(ex, p), lambda *i: hexbit(h, i[-1]))
        return ex.fresh('hexlen', IntSort())
class BNIsSet(Contract):
    name = 'BN_is_bit_set'
    def apply(self, ex, st, args, tys, ats, ins):
        return If(bn_bit(ex, st, args[0], args[1]), IntVal(1), IntVal(0))
class BNSet(Contract):
    name = 'BN_set_bit'; val = True
    def apply(self, ex, st, args, tys, ats, ins):
        b = ex.bounds; ex.bounds = False
        ex.store(st, bn_cell(ex, args[0], args[1]), ('i', 1), BoolVal(self.val)); ex.bounds = b
        r = ex.fresh('bnret', IntSort()); ex.axiom(st, Or(r == 0, r == 1)) ; return r
class BNClear(BNSet):
    name = 'BN_clear_bit'; val = False
class BNNumBits(Contract):
    """bits at and above BN_num_bits are 0"""
    name = 'BN_num_bits'
    def apply(self, ex, st, args, tys, ats, ins):
        p = bn_one(ex, args[0]); m = bn_mem(ex, st, p)
        c = getattr(ex, 'nbits', None)
        if c is None: c = ex.nbits = {}
        k = (m.id, p.r.id, tuple(x.get_id() for x in p.idx[:-1]))
        if k not in c:
            n = ex.nn(ex.fresh('num_bits', IntSort()))
            sh = p.r.extra.get('shape', ())
            vs = [Int('nbv%d' % j) for j in range(len(sh) + 1)]
            flat = vs[0]
            for w, v in zip(reversed(sh), vs[1:]): flat = flat * w + v
            body = m.read(tuple(p.idx[:-1]) + tuple(vs))
            rng = [And(v >= 0, v < w) for w, v in zip(reversed(sh), vs[1:])]
            c[k] = (n, ForAll(vs, Implies(And(vs[0] >= 0, flat >= n, *rng), Not(body))), m)
        n, q, _ = c[k]
        ex.axiom(st, And(n >= 0, q))
        return n
class CStr(Contract):
    """std::string::c_str / data of an opaque string"""
    def __init__(self, name): self.name = name
    def apply(self, ex, st, args, tys, ats, ins):
        if isinstance(args[0], Handle): return args[0]
        if ex.is_lib(args[0]): return ex.lib_val(('ptr',))
        raise Unsupported('c_str of %r' % (args[0],))
CSTR = '_ZNKSt7__cxx1112basic_stringIcSt11char_traitsIcESaIcEE5c_strEv'
DATA = '_ZNKSt7__cxx1112basic_stringIcSt11char_traitsIcESaIcEE4dataEv'
BN_BITS = lambda: [BNNew(), BNFree(), BNZero(), BNHex(), BNIsSet(), BNSet(), BNClear(), BNNumBits(), CStr(CSTR), CStr(DATA)]
class BNFreeC(BNFree): name = 'BN_clear_free'

class Keep(Contract):
    def __init__(self, n): self.name = n
    def handles(self, ex): return False

# ---------------------------------------------------------------- circuits
GCF = dict(p_init=0, g_init=1, e_init=2, p_input=3, g_input=4, e_input=5, dff=6, output=7, terminate_id=8, gate=9)
GCT = S('struct.GarbledCircuit')
def circuit(ex, name='gc'):
    r = Region(name, GCT, ex.ival(1), 'param'); p = Ptr(r, (ex.zero(),))
    return p
class Sizes:
    """field values of the circuit, registered non-negative"""
    def __init__(self, ex, st, gc):
        for n, f in GCF.items():
            v = peek(ex, st, gc, GCT, f)
            setattr(self, n, v)
            if n != 'terminate_id':
                ex.nn(v); ex.axiom(st, v >= 0)
def ghosts0(ex): return {'T': T0, 'failed': BoolVal(False)}
def lsb(v): return Extract(0, 0, v) == 1

def lemma_obl(name, hyps, goal):
    from vc import Facts
    o = Obl(name, 'lemma', Facts(BoolVal(True)), list(hyps), goal); o.where = ''
    return o
def cover(name, hyps): return (name, [], list(hyps))
