"""Region memory: immutable, functional memory values (read-over-write is expanded into terms)."""
import itertools
from z3 import *

class Unsupported(Exception):
    pass

_ids = itertools.count(1)

def same(a, b):
    return a is b or a.eq(b)

def is_num(x):
    return is_int_value(x) or is_bv_value(x)

def idx_eq(a, b):
    """tuple index equality -> python bool if decided syntactically, else z3 Bool"""
    conds = []
    for x, y in zip(a, b):
        if same(x, y):
            continue
        if is_num(x) and is_num(y):
            if x.as_long() != y.as_long():
                return False
            continue
        d = simplify(x - y) if not is_bv(x) else simplify(x - y)
        if is_num(d):
            if d.as_long() == 0:
                continue
            return False
        conds.append(x == y)
    if not conds:
        return True
    return conds[0] if len(conds) == 1 else And(*conds)

class MemVal:
    """scalar leaf memory"""
    def __init__(self):
        self.id = next(_ids)
        self.cache = {}
    def read(self, idx):
        k = tuple(x.get_id() for x in idx)
        r = self.cache.get(k)
        if r is None:
            r = self._read(idx)
            self.cache[k] = (r, idx)
            return r
        return r[0]

class Base(MemVal):
    def __init__(self, fn, name=''):
        super().__init__(); self.fn = fn; self.name = name
    def _read(self, idx):
        return self.fn(*idx)

class Store(MemVal):
    def __init__(self, prev, idx, val):
        super().__init__(); self.prev = prev; self.idx = idx; self.val = val
    def _read(self, idx):
        e = idx_eq(idx, self.idx)
        if e is True:
            return self.val
        if e is False:
            return self.prev.read(idx)
        return ite(e, self.val, self.prev.read(idx))

class Mix(MemVal):
    """guarded choice"""
    def __init__(self, c, a, b):
        super().__init__(); self.c = c; self.a = a; self.b = b
    def _read(self, idx):
        return ite(self.c, self.a.read(idx), self.b.read(idx))

class Where(MemVal):
    """a on indices where pred(idx), else b"""
    def __init__(self, pred, a, b):
        super().__init__(); self.pred = pred; self.a = a; self.b = b
    def _read(self, idx):
        return ite(self.pred(*idx), self.a.read(idx), self.b.read(idx))

def ite(c, a, b):
    if isinstance(c, bool):
        return a if c else b
    if is_true(c): return a
    if is_false(c): return b
    if a is b: return a
    if isinstance(a, ExprRef) and isinstance(b, ExprRef):
        if a.eq(b): return a
        if is_bool(a):
            if is_true(a) and is_false(b): return c
            if is_false(a) and is_true(b): return Not(c)
        return If(c, a, b)
    # pointer-like values
    return PtrAlt.make([(c, a), (Not(c), b)])

class Region:
    def __init__(self, name, ety=None, length=None, kind='heap', dims=1, width=None, nbytes=None):
        self.id = next(_ids); self.name = name; self.ety = ety; self.length = length
        self.kind = kind; self.dims = dims; self.width = width; self.nbytes = nbytes
        self.ptr_shape = {}   # leafpath -> fn(idx)->pointer value
        self.rows = None
        self.init = {}
        self.zero = False
        self.extra = {}
    def __repr__(self):
        return '<%s#%d>' % (self.name, self.id)

class Ptr:
    __slots__ = ('r', 'idx', 'path')
    def __init__(self, r, idx, path=()):
        self.r = r; self.idx = tuple(idx); self.path = tuple(path)
    def __repr__(self):
        return 'Ptr(%r,%s,%s)' % (self.r, self.idx, self.path)
    def key(self):
        return (self.r.id, tuple(x.get_id() for x in self.idx), tuple((c[0], c[1] if c[0] == 'f' else c[1].get_id()) for c in self.path))

class Virt(str):
    """virtual field of a library object (contents of a container), with its type"""
    @staticmethod
    def make(name, ty):
        v = Virt(name); v.ty = ty; return v

class NullP:
    def __repr__(self): return 'Null'
    def key(self): return 'null'
NULL = NullP()

class UndefP:
    def __repr__(self): return 'UndefPtr'
    def key(self): return 'undef'
UNDEFP = UndefP()

class PadP:
    """address of padding bytes of a structure: they carry no value"""
    def __repr__(self): return 'Padding'
    def key(self): return 'pad'
PADP = PadP()

class Handle:
    """opaque pointer identified by an integer term (BIGNUM*, RSA*, std::string&, FILE*...)"""
    __slots__ = ('t', 'kind')
    def __init__(self, t, kind=''):
        self.t = t; self.kind = kind
    def __repr__(self): return 'Handle(%s)' % self.t
    def key(self): return ('h', self.t.get_id())

class FnP:
    def __init__(self, name): self.name = name
    def key(self): return ('fn', self.name)

class GlobP:
    def __init__(self, name): self.name = name
    def key(self): return ('g', self.name)
    def __repr__(self): return '@' + self.name

class PtrAlt:
    def __init__(self, alts): self.alts = alts
    def __repr__(self): return 'Alt' + repr(self.alts)
    def key(self): return ('alt', id(self))
    @staticmethod
    def make(alts):
        out = []
        for c, v in alts:
            if is_false(c): continue
            if v is UNDEFP: continue
            if isinstance(v, PtrAlt):
                for c2, v2 in v.alts:
                    out.append((And(c, c2), v2))
            else:
                out.append((c, v))
        # merge equal values
        m = {}
        order = []
        for c, v in out:
            k = v.key()
            if k in m:
                m[k] = (Or(m[k][0], c), v)
            else:
                m[k] = (c, v); order.append(k)
        if not order:
            return UNDEFP
        # merge handles into one handle with ite
        vals = [m[k] for k in order]
        if len(vals) == 1:
            return vals[0][1]
        # try merging Ptr to same region and same static path with differing index terms
        groups = {}
        gorder = []
        for c, v in vals:
            if isinstance(v, Ptr):
                g = ('p', v.r.id, tuple((p[0], p[1] if p[0] == 'f' else '*') for p in v.path), len(v.idx))
            elif isinstance(v, Handle) or v is NULL:
                g = ('h',)
            else:
                g = v.key()
            groups.setdefault(g, []).append((c, v))
            if g not in gorder: gorder.append(g)
        res = []
        for g in gorder:
            vs = groups[g]
            c0, v0 = vs[-1]
            cs = [c0]
            for c, v in reversed(vs[:-1]):
                if isinstance(v, Ptr):
                    idx = tuple(ite(c, a, b) for a, b in zip(v.idx, v0.idx))
                    path = tuple(a if a[0] == 'f' else ('a', ite(c, a[1], b[1])) for a, b in zip(v.path, v0.path))
                    v0 = Ptr(v.r, idx, path)
                elif isinstance(v, Handle) or v is NULL:
                    def ht(x): return IntVal(0) if x is NULL else x.t
                    k = v.kind if isinstance(v, Handle) else v0.kind if isinstance(v0, Handle) else ''
                    v0 = Handle(ite(c, ht(v), ht(v0)), k)
                cs.append(c)
            res.append((Or(*cs) if len(cs) > 1 else cs[0], v0))
        if len(res) == 1:
            return res[0][1]
        return PtrAlt(res)
