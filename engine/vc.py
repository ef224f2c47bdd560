"""Verification-condition generator over LLVM IR: contracts at calls, cut points at loops, functional region memory."""
import itertools, re
from z3 import *
import ir
from mem import *

set_param('smt.random_seed', 0)

class Obl:
    __slots__ = ('name', 'kind', 'facts', 'hyps', 'goal', 'res', 'time', 'backend', 'model', 'where')
    def __init__(self, name, kind, facts, hyps, goal, where=''):
        self.name = name; self.kind = kind; self.facts = facts; self.hyps = hyps; self.goal = goal
        self.res = None; self.time = 0; self.backend = ''; self.model = None; self.where = where

class Facts:
    """persistent list"""
    __slots__ = ('f', 'prev', 'n')
    def __init__(self, f=None, prev=None):
        self.f = f; self.prev = prev; self.n = 0 if prev is None else prev.n + 1
    def add(self, f): return Facts(f, self)
    def all(self):
        seen = set(); out = []
        st = [self]
        vis = set()
        while st:
            x = st.pop()
            while x is not None and id(x) not in vis:
                vis.add(id(x))
                if isinstance(x.f, tuple):   # merge node
                    st.extend(x.f)
                elif x.f is not None:
                    k = x.f.get_id()
                    if k not in seen:
                        seen.add(k); out.append(x.f)
                x = x.prev
        out.reverse()
        return out

class State:
    __slots__ = ('pc', 'mem', 'gh', 'facts', 'phi')
    def __init__(self):
        self.pc = (); self.mem = {}; self.gh = {}; self.facts = Facts(); self.phi = {}
    def copy(self):
        s = State(); s.pc = self.pc; s.mem = dict(self.mem); s.gh = dict(self.gh); s.facts = self.facts; s.phi = {}
        return s

def conj(l):
    l = [x for x in l if not is_true(x)]
    if not l: return BoolVal(True)
    return l[0] if len(l) == 1 else And(*l)

def neg(c):
    return c.arg(0) if is_not(c) else Not(c)

class LoopCtx:
    pass

class Exec:
    UNROLL = 80
    def __init__(self, mod, contracts, mode='int', opts=None):
        self.mod = mod; self.contracts = contracts; self.mode = mode
        self.opts = opts or {}
        self.obls = []
        self.dry = 0
        self.counter = itertools.count(1)
        self.fresh_no = {}
        self.sites = {}
        self.inv_stack = []
        self.nonneg = set()
        self.keep = []
        self.cutdepth = 0
        self.loopstack = []
        self.trace = []
        self.cur_fn = None
        self.top = None
        self.assumed = set()
        self.used_contracts = set()
        self._invc = {}
        self.calls_seen = []
        self.bounds = self.opts.get('bounds', True)
        self.blk_i2b = Function('i2b64', IntSort(), BitVecSort(64))

    # ------------------------------------------------------------ symbols
    def fresh(self, name, sort):
        n = next(self.counter)
        c = Const('%s!%d' % (name, n), sort)
        self.fresh_no[c.decl().name()] = n
        return c
    def fresh_fn(self, name, *sorts):
        n = next(self.counter)
        f = Function('%s!%d' % (name, n), *sorts)
        self.fresh_no[f.name()] = n
        return f
    def mark(self):
        return next(self.counter)
    def invariant_since(self, t, mark):
        """term mentions no symbol created after mark"""
        key = (t.get_id(), mark)
        if key in self._invc: return self._invc[key][0]
        r = True
        seen = set(); st = [t]
        while st:
            x = st.pop()
            if x.get_id() in seen: continue
            seen.add(x.get_id())
            if is_app(x):
                n = self.fresh_no.get(x.decl().name())
                if n is not None and n > mark:
                    r = False; break
                st.extend(x.children())
            elif is_quantifier(x):
                st.append(x.body())
        self._invc[key] = (r, t)
        return r
    def nn(self, t):
        """register a term as known non-negative"""
        self.nonneg.add(t.get_id()); self.keep.append(t)
        return t
    def is_nn(self, t):
        if is_int_value(t): return t.as_long() >= 0
        if t.get_id() in self.nonneg: return True
        if is_app(t):
            k = t.decl().kind()
            if k in (Z3_OP_ADD, Z3_OP_MUL):
                return all(self.is_nn(c) for c in t.children())
            if k == Z3_OP_ITE:
                return self.is_nn(t.arg(1)) and self.is_nn(t.arg(2))
            if k == Z3_OP_BV2INT: return True
            if k in (Z3_OP_MOD,): return True
            if k == Z3_OP_IDIV: return self.is_nn(t.arg(0)) and self.is_nn(t.arg(1))
        return False

    # ------------------------------------------------------------ sorts
    def sort_of(self, ty):
        ty = self.res(ty)
        if ty[0] == 'i':
            if ty[1] == 1: return BoolSort()
            return IntSort() if self.mode == 'int' else BitVecSort(ty[1])
        if ty[0] == 'vec':
            return BitVecSort(ty[1] * self.bits(ty[2]))
        if ty[0] == 'fp': return RealSort()
        raise Unsupported('sort of %r' % (ty,))
    def isort(self):
        return IntSort() if self.mode == 'int' else BitVecSort(64)
    def ival(self, n):
        return IntVal(n) if self.mode == 'int' else BitVecVal(n, 64)
    def iconst(self, ty, n):
        w = ty[1]
        if w == 1: return BoolVal(n != 0)
        if self.mode == 'int':
            n &= (1 << w) - 1
            if n >= 1 << (w - 1): n -= 1 << w
            return IntVal(n)
        return BitVecVal(n, w)
    def bits(self, ty):
        ty = self.res(ty)
        if ty[0] == 'i': return ty[1]
        if ty[0] == 'ptr': return 64
        if ty[0] == 'vec': return ty[1] * self.bits(ty[2])
        if ty[0] == 'fp': return {'float': 32, 'double': 64, 'half': 16}.get(ty[1], 128)
        raise Unsupported('bits %r' % (ty,))
    def res(self, ty):
        return ty
    def fields(self, ty):
        if ty[0] == 'named':
            f = self.mod.types.named.get(ty[1])
            if f is None: raise Unsupported('opaque struct %s' % ty[1])
            return f
        if ty[0] == 'struct': return ty[2]
        raise Unsupported('fields of %r' % (ty,))
    def is_struct(self, ty): return ty[0] in ('named', 'struct')
    def align(self, ty):
        if ty[0] == 'i': return max(1, min(16, (ty[1] + 7) // 8))
        if ty[0] == 'ptr': return 8
        if ty[0] == 'vec': return self.bits(ty) // 8
        if ty[0] == 'arr': return self.align(ty[2])
        if ty[0] == 'fp': return self.bits(ty) // 8
        return max([1] + [self.align(f) for f in self.fields(ty)])
    def sizeof(self, ty):
        if ty[0] == 'i': return (ty[1] + 7) // 8
        if ty[0] == 'ptr': return 8
        if ty[0] in ('vec', 'fp'): return self.bits(ty) // 8
        if ty[0] == 'arr': return ty[1] * self.sizeof(ty[2])
        off = 0
        for f in self.fields(ty):
            a = self.align(f); off = (off + a - 1) // a * a + self.sizeof(f)
        a = self.align(ty)
        return (off + a - 1) // a * a
    def offset(self, ty, k):
        off = 0
        for j, f in enumerate(self.fields(ty)):
            a = self.align(f); off = (off + a - 1) // a * a
            if j == k: return off
            off += self.sizeof(f)

    # ------------------------------------------------------------ pointers & memory
    def ptype(self, p):
        t = p.r.ety
        for c in p.path:
            if c[0] == 'f': t = c[1].ty if isinstance(c[1], Virt) else self.fields(t)[c[1]]
            else: t = t[2]
        return t
    def zero(self): return self.ival(0)
    def set_type(self, r, ty):
        r.ety = ty
        if r.nbytes is not None and r.length is None:
            r.length = self.div_const(r.nbytes, self.sizeof(ty))
    def div_const(self, t, n):
        if n == 1: return t
        if self.mode == 'bv':
            if is_bv_value(t): return BitVecVal(t.as_long() // n, 64)
            return UDiv(t, BitVecVal(n, 64))
        if is_int_value(t): return IntVal(t.as_long() // n)
        po = self.poly(t)
        if all(c % n == 0 for c in po.values()):
            return self.unpoly({m: c // n for m, c in po.items()})
        return t / n
    def descend(self, p, ty):
        """make p point at a type equal to ty (first field / element)"""
        if p.r.ety is None:
            if ty == ('i', 8) and p.r.kind != 'alloca':
                self.set_type(p.r, ty)
            else:
                self.set_type(p.r, ty if ty[0] != 'arr' else ty[2])
        for _ in range(12):
            t = self.ptype(p)
            if t == ty: return p
            if ty[0] == 'arr' and t == ty[2]: return p   # flattened array
            if self.is_struct(t): p = Ptr(p.r, p.idx, p.path + (('f', 0),))
            elif t[0] == 'arr': p = Ptr(p.r, p.idx, p.path + (('a', self.zero()),))
            else: return p
        return p
    def past_end(self, p):
        """the address just past an array member is that of the member after it"""
        t = p.r.ety; path = p.path
        for k, c in enumerate(path):
            if c[0] == 'f':
                if isinstance(c[1], Virt): break
                u = self.fields(t)[c[1]]
                if u[0] == 'arr' and isinstance(u[1], int) and k + 1 < len(path) and path[k + 1][0] == 'a' and is_num(path[k + 1][1]) and path[k + 1][1].as_long() == u[1] and c[1] + 1 < len(self.fields(t)) and self.offset(t, c[1] + 1) == self.offset(t, c[1]) + self.sizeof(u):
                    return self.past_end(Ptr(p.r, p.idx, path[:k] + (('f', c[1] + 1),) + path[k + 2:]))
                t = u
            else: t = t[2]
        return p
    def gep(self, p, sty, idx):
        if isinstance(p, PtrAlt):
            return PtrAlt.make([(c, self.gep(v, sty, idx)) for c, v in p.alts if v is not NULL and v is not UNDEFP])
        if p is NULL or p is UNDEFP: return UNDEFP
        if isinstance(p, Handle) and p.kind == 'lib': return p
        if isinstance(p, Ptr) and self.mode == 'int' and self.is_lib(p): return Handle(self.fresh('lib', IntSort()), 'lib')
        if isinstance(p, GlobP): return self.gep(self.globptr(p), sty, idx)
        if not isinstance(p, Ptr):
            raise Unsupported('gep on %r' % (p,))
        if p.r.ety is None and sty == ('i', 8) and len(idx) == 1 and p.r.kind == 'heap' and p.r.extra.get('bytes') is None:
            if is_num(idx[0]) and idx[0].as_long() == 0: return p
        p = self.descend(p, sty)
        t = self.ptype(p)
        i0 = idx[0]
        z = is_num(i0) and i0.as_long() == 0
        if t != sty and not (sty[0] == 'arr' and sty[2] == t):
            # byte-wise or type-punned addressing
            if z and len(idx) == 1: return p
            if len(idx) == 1 and is_num(i0):
                return self.byte_offset(p, i0.as_signed_long() * self.sizeof(sty) if is_bv(i0) else i0.as_long() * self.sizeof(sty))
            if len(idx) == 1 and sty[0] in ('i', 'vec', 'ptr'):
                # punned stepping: scale when element sizes are commensurable
                return self.pun_step(p, sty, i0)
            raise Unsupported('gep %r over %r' % (sty, t))
        rest = list(idx[1:])
        if t != sty:  # flattened array
            n = sty[1]
            if not z: p = self.advance(p, i0 * self.ival(n))
            if rest:
                p = self.advance(p, rest.pop(0)); t = self.ptype(p)
            else:
                return p
        else:
            if not z: p = self.advance(p, i0)
        for k in rest:
            t = self.ptype(p)
            if self.is_struct(t):
                if not is_num(k): raise Unsupported('symbolic struct index')
                p = Ptr(p.r, p.idx, p.path + (('f', k.as_long()),))
            elif t[0] == 'arr':
                p = Ptr(p.r, p.idx, p.path + (('a', k),))
            else:
                raise Unsupported('gep into %r' % (t,))
        return p
    def simp(self, t):
        return simplify(t, som=False) if not is_num(t) else t
    def advance(self, p, d):
        if p.path and p.path[-1][0] == 'a':
            return Ptr(p.r, p.idx, p.path[:-1] + (('a', self.simp(p.path[-1][1] + d)),))
        if p.path and p.path[-1][0] == 'f':
            raise Unsupported('advance past field')
        return Ptr(p.r, p.idx[:-1] + (self.simp(p.idx[-1] + d),), p.path)
    def pun_step(self, p, sty, i):
        raise Unsupported('punned stepping %r over %r' % (sty, self.ptype(p)))
    def byte_offset(self, p, n):
        # locate byte offset n from p: climb to an enclosing aggregate
        if n == 0: return p
        # compute absolute offset within region element
        off = n; t = p.r.ety
        for c in p.path:
            if c[0] == 'f': off += self.offset(t, c[1]); t = self.fields(t)[c[1]]
            else:
                if not is_num(c[1]): 
                    # array element with symbolic index: step whole elements only
                    es = self.sizeof(t[2])
                    if n % es == 0: return self.advance(p, self.ival(n // es))
                    raise Unsupported('byte offset in symbolic array')
                off += self.sizeof(t[2]) * c[1].as_long(); t = t[2]
        sz = self.sizeof(p.r.ety)
        q, off = divmod(off, sz)
        idx = p.idx[:-1] + (self.simp(p.idx[-1] + self.ival(q)),) if q else p.idx
        t = p.r.ety; path = ()
        while off or self.is_struct(t) or t[0] == 'arr':
            if self.is_struct(t):
                fs = self.fields(t)
                for k in range(len(fs) - 1, -1, -1):
                    o = self.offset(t, k)
                    if o <= off: break
                path += (('f', k),); off -= o; t = fs[k]
            elif t[0] == 'arr':
                es = self.sizeof(t[2]); path += (('a', self.ival(off // es)),); off %= es; t = t[2]
            else:
                if path and off >= self.sizeof(t): return PADP
                raise Unsupported('sub-element byte offset')
        return Ptr(p.r, idx, path)
    def leaf(self, p):
        """-> (leafpath, idx tuple)"""
        lp = []; ix = []
        idx = list(p.idx)
        if p.r.extra.get('shape'):
            e = idx.pop()
            outs = []
            for w in p.r.extra['shape']:
                q, rem = self.divide(e, w)
                outs.append(rem); e = q
            outs.append(e)
            idx += list(reversed(outs))
        ix = idx
        for c in p.path:
            if c[0] == 'f': lp.append(c[1])
            else: lp.append('*'); ix = ix + [c[1]]
        return tuple(lp), tuple(ix)
    def leafkey(self, r, lp): return (r.id, lp)
    def initial(self, r, lp, ty):
        m = r.init.get(lp)
        if m is None:
            if ty[0] == 'ptr':
                sh = r.ptr_shape.get(lp)
                if sh is None and r.kind == 'global' and self.mode == 'int':
                    h = Function('global_ptr_' + r.name, *([IntSort()] * (r.dims + 1)))
                    m = Base(lambda *i: Handle(h(*i[:1]), 'global'), 'global')
                elif sh is None:
                    m = Base(lambda *i: UNDEFP, 'undef')
                else:
                    m = Base(sh, 'shape')
            else:
                n = len(r.extra.get('shape', ())) + r.dims + sum(1 for x in lp if x == '*')
                s = self.sort_of(ty)
                nm = '%s%s' % (r.name, ''.join('.' + str(x) for x in lp))
                if r.zero:
                    z = BoolVal(False) if is_bool(Const('x', s)) else (IntVal(0) if s == IntSort() else BitVecVal(0, s.size()))
                    m = Base(lambda *i: z, 'zero')
                elif r.extra.get('const') is not None:
                    m = Base(r.extra['const'](lp), 'const')
                else:
                    f = self.fresh_fn(nm, *([self.isort()] * n), s) if r.kind != 'param' else Function(nm + '@0#%d' % r.id, *([self.isort()] * n), s)
                    m = Base(lambda *i, f=f: f(*i), nm)
                    m.fn_decl = f
            r.init[lp] = m
        return m
    def getmem(self, st, r, lp, ty):
        m = st.mem.get((r.id, lp))
        if m is None:
            m = self.initial(r, lp, ty)
            st.mem[(r.id, lp)] = m
            self.regions[(r.id, lp)] = (r, ty)
        return m
    regions = None
    def setmem(self, st, r, lp, ty, m):
        self.getmem(st, r, lp, ty)
        st.mem[(r.id, lp)] = m
    def load(self, st, p, ty, why='load'):
        if p is PADP: return self.havoc_val(ty, 'padding')
        if isinstance(p, PtrAlt):
            r = None
            bad = [c for c, v in p.alts if v is NULL or v is UNDEFP]
            if bad and self.bounds: self.oblige(st, 'deref', 'pointer dereferenced is valid', Not(Or(*bad)))
            for c, v in reversed([a for a in p.alts if a[1] is not NULL and a[1] is not UNDEFP]):
                x = self.load(st, v, ty)
                r = x if r is None else ite(c, x, r)
            if r is None: raise Unsupported('load through null')
            return r
        if isinstance(p, GlobP): p = self.globptr(p)
        if self.is_lib(p): return self.lib_val(ty)
        if p is NULL or p is UNDEFP:
            self.oblige(st, 'deref', 'null', BoolVal(False))
            return self.havoc_val(ty, 'undef')
        if not isinstance(p, Ptr):
            raise Unsupported('load through %r' % (p,))
        p = self.past_end(self.descend(p, ty))
        t = self.ptype(p)
        if self.is_struct(ty) or ty[0] == 'arr': raise Unsupported('aggregate load')
        lp, ix = self.leaf(p)
        self.check_bounds(st, p, ix)
        if t == ty:
            if t[0] == 'ptr' and self.bounds:
                d = self.initialised(self.getmem(st, p.r, lp, t), ix)
                if not is_true(d): self.oblige(st, 'deref', 'pointer read from %s was initialised' % p.r.name, d)
            return self.getmem(st, p.r, lp, t).read(ix)
        if t[0] == 'vec' and ty[0] in ('i',):
            b = self.getmem(st, p.r, lp, t).read(ix)
            return self.from_bv(Extract(ty[1] - 1, 0, b), ty)
        if t[0] == 'vec' and ty[0] == 'vec' and self.bits(t) == self.bits(ty):
            return self.getmem(st, p.r, lp, t).read(ix)
        if t[0] == 'i' and ty[0] == 'i' and ty[1] < t[1] and self.mode == 'bv':
            return Extract(ty[1] - 1, 0, self.getmem(st, p.r, lp, t).read(ix)) if ty[1] > 1 else self.getmem(st, p.r, lp, t).read(ix) != 0
        if t[0] == 'i' and t[1] == 8 and ty[0] == 'vec' and self.mode == 'bv':
            m = self.getmem(st, p.r, lp, t)
            n = self.bits(ty) // 8
            bs = [m.read(ix[:-1] + (simplify(ix[-1] + self.ival(k)),)) for k in range(n)]
            return Concat(*reversed(bs))
        if t[0] == 'ptr' or ty[0] == 'ptr':
            raise Unsupported('punned pointer load %r as %r' % (t, ty))
        raise Unsupported('load %r from %r' % (ty, t))
    def is_lib(self, p):
        """object of the C++ standard library or boost (streams, strings, iterators): opaque"""
        if isinstance(p, Handle): return p.kind == 'lib'
        x = getattr(self.contracts, 'structural', None)
        if x and isinstance(p, Ptr) and p.r.ety is not None and p.r.ety[0] == 'named' and p.r.ety[1].startswith(x): return False
        return isinstance(p, Ptr) and not any(c[0] == 'f' and isinstance(c[1], Virt) for c in p.path) and p.r.ety is not None and p.r.ety[0] == 'named' and p.r.kind == 'alloca' and bool(re.match(r'(class|struct)\.(std|boost)::', p.r.ety[1]))
    def lib_val(self, ty):
        if ty[0] == 'ptr': return Handle(self.fresh('lib', IntSort()), 'lib')
        return self.havoc_val(ty, 'lib')
    def initialised(self, m, ix, memo=None):
        """condition under which the pointer cell ix of memory m has been written"""
        memo = {} if memo is None else memo
        if m.id in memo: return memo[m.id]
        if isinstance(m, Store):
            e = idx_eq(ix, m.idx); v = BoolVal(m.val is not UNDEFP)
            r = v if e is True else self.initialised(m.prev, ix, memo) if e is False else None
            if r is None:
                o = self.initialised(m.prev, ix, memo)
                r = o if is_true(o) and is_true(v) else If(e, v, o)
        elif isinstance(m, Mix):
            a, b = self.initialised(m.a, ix, memo), self.initialised(m.b, ix, memo)
            r = a if a.eq(b) else If(m.c, a, b)
        elif isinstance(m, Where):
            a, b = self.initialised(m.a, ix, memo), self.initialised(m.b, ix, memo)
            r = a if a.eq(b) else If(m.pred(*ix), a, b)
        else: r = BoolVal(getattr(m, 'name', '') != 'undef')
        memo[m.id] = r
        return r
    def store(self, st, p, ty, v):
        if p is PADP: return
        if isinstance(p, PtrAlt):
            for c, q in p.alts:
                if q is NULL or q is UNDEFP: continue
                q2 = self.descend(q, ty); lp, ix = self.leaf(q2); t = self.ptype(q2)
                if t != ty: raise Unsupported('punned store via alternatives')
                old = self.getmem(st, q2.r, lp, t)
                self.setmem(st, q2.r, lp, t, Store(old, ix, ite(c, v, old.read(ix))))
            return
        if isinstance(p, GlobP): p = self.globptr(p)
        if p is NULL or p is UNDEFP:
            self.oblige(st, 'deref', 'null', BoolVal(False)); return
        if not isinstance(p, Ptr): raise Unsupported('store through %r' % (p,))
        p = self.past_end(self.descend(p, ty))
        t = self.ptype(p)
        lp, ix = self.leaf(p)
        self.check_bounds(st, p, ix)
        if t != ty:
            if t[0] == 'vec' and ty[0] == 'i':
                old = self.getmem(st, p.r, lp, t).read(ix)
                w = ty[1]
                v = Concat(Extract(self.bits(t) - 1, w, old), self.to_bv(v, w))
                ty = t
            elif t[0] == 'vec' and ty[0] == 'vec' and self.bits(t) == self.bits(ty):
                ty = t
            elif t[0] == 'i' and t[1] == 8 and ty[0] == 'vec' and self.mode == 'bv':
                m = self.getmem(st, p.r, lp, t)
                for k in range(self.bits(ty) // 8):
                    m = Store(m, ix[:-1] + (simplify(ix[-1] + self.ival(k)),), Extract(8 * k + 7, 8 * k, v))
                self.setmem(st, p.r, lp, t, m); return
            else:
                raise Unsupported('store %r into %r' % (ty, t))
        self.setmem(st, p.r, lp, t, Store(self.getmem(st, p.r, lp, t), ix, v))
    def check_bounds(self, st, p, ix):
        if not self.bounds or p.r.kind == 'ghost': return
        sh = p.r.extra.get('shape')
        nd = p.r.dims
        k = nd - 1
        conds = []
        if sh:
            dims = ix[k:k + len(sh) + 1]
            for w, x in zip(reversed(sh), dims[1:]):
                conds.append(And(x >= 0, x < w))
            if p.r.extra.get('rows') is not None:
                conds.append(And(dims[0] >= 0, dims[0] < p.r.extra['rows']))
        elif p.r.length is not None:
            x = ix[k]; L = p.r.length
            if self.mode == 'int':
                if is_num(x) and is_num(L) and 0 <= x.as_long() < L.as_long(): pass
                else: conds.append(And(x >= 0, x < L))
            else:
                if is_num(x) and is_num(L) and x.as_long() < L.as_long(): pass
                else: conds.append(ULT(x, L))
        # inner arrays
        t = p.r.ety
        for c in p.path:
            if c[0] == 'f': t = c[1].ty if isinstance(c[1], Virt) else self.fields(t)[c[1]]
            else:
                n = t[1]; t = t[2]
                if n is None: continue          # container elements: the accessor's contract checks the index
                if is_num(c[1]) and 0 <= c[1].as_long() < n: continue
                conds.append(And(c[1] >= 0, c[1] < n) if self.mode == 'int' else ULT(c[1], n))
        if conds:
            self.oblige(st, 'bounds', '%s in bounds' % p.r.name, conj(conds))
    def globptr(self, g):
        r = self.globs.get(g.name)
        if r is None:
            d = self.mod.globals.get(g.name, '')
            r = Region('@' + g.name, None, None, 'global')
            m = re.match(r'(?:[\w()]+ )*?(?:constant|global) (.*)$', d)
            if m:
                try:
                    pp = ir.P(ir.tokenize(m.group(1).split(', align')[0].split(', comdat')[0]), d)
                    ty = pp.type()
                    init = pp.value(ty) if not pp.eof() and 'constant' in d.split(m.group(1))[0] else None
                    if ty[0] == 'arr':
                        r.ety = ty[2]; r.length = self.ival(ty[1])
                        if init is not None:
                            vals = self.const_array(ty, init)
                            if vals is not None:
                                r.extra['const'] = lambda lp, vals=vals, e=ty[2]: (lambda *i: self.table_read(vals, i[0], e))
                    else:
                        r.ety = ty; r.length = self.ival(1)
                except ir.IRError:
                    pass
            self.globs[g.name] = r
        return Ptr(r, (self.zero(),))
    globs = None
    def const_array(self, ty, init):
        e = ty[2]
        if e[0] != 'i': return None
        if init[0] == 'zero': return [0] * ty[1]
        if init[0] == 'cstr':
            s = init[1][2:-1]; out = []; i = 0
            while i < len(s):
                if s[i] == '\\': out.append(int(s[i + 1:i + 3], 16)); i += 3
                else: out.append(ord(s[i])); i += 1
            return out
        if init[0] == 'arrc':
            return [v[1] if v[0] == 'int' else 0 for _, v in init[1]]
        return None
    def table_read(self, vals, i, e):
        if is_num(i):
            return self.iconst(e, vals[i.as_long()])
        r = self.iconst(e, vals[-1])
        for k in range(len(vals) - 2, -1, -1):
            r = If(i == k, self.iconst(e, vals[k]), r)
        return r

    # ------------------------------------------------------------ conversions
    def from_bv(self, b, ty):
        w = ty[1]
        if w == 1: return b == 1
        if self.mode == 'bv': return b
        if is_bv_value(simplify(b)):
            return self.iconst(ty, simplify(b).as_long())
        return BV2Int(b, is_signed=False) if w < 64 else BV2Int(b)
    def to_bv(self, x, w):
        if is_bool(x): return If(x, BitVecVal(1, w), BitVecVal(0, w))
        if is_bv(x):
            return x
        if is_int_value(x): return BitVecVal(x.as_long(), w)
        if is_app(x) and x.decl().kind() == Z3_OP_BV2INT:
            y = x.arg(0)
            if y.size() == w: return y
            if y.size() < w: return ZeroExt(w - y.size(), y)
            return Extract(w - 1, 0, y)
        if is_app(x) and x.decl().kind() == Z3_OP_ITE:
            return If(x.arg(0), self.to_bv(x.arg(1), w), self.to_bv(x.arg(2), w))
        if w == 64: return self.blk_i2b(x)
        return Extract(w - 1, 0, self.blk_i2b(x))
    def unsigned(self, x, w):
        if self.mode == 'bv': return x
        if self.is_nn(x): return x
        return If(x < 0, x + (1 << w), x)

    # ------------------------------------------------------------ polynomials (int mode index normalisation)
    def poly(self, t):
        if is_int_value(t): 
            v = t.as_long()
            return {(): v} if v else {}
        if is_app(t):
            k = t.decl().kind()
            if k == Z3_OP_ADD:
                r = {}
                for c in t.children():
                    for m, v in self.poly(c).items():
                        r[m] = r.get(m, 0) + v
                return {m: v for m, v in r.items() if v}
            if k == Z3_OP_SUB:
                r = dict(self.poly(t.arg(0)))
                for c in t.children()[1:]:
                    for m, v in self.poly(c).items():
                        r[m] = r.get(m, 0) - v
                return {m: v for m, v in r.items() if v}
            if k == Z3_OP_UMINUS:
                return {m: -v for m, v in self.poly(t.arg(0)).items()}
            if k == Z3_OP_MUL:
                r = {(): 1}
                for c in t.children():
                    pc = self.poly(c); n = {}
                    for m1, v1 in r.items():
                        for m2, v2 in pc.items():
                            m = tuple(sorted(m1 + m2)); n[m] = n.get(m, 0) + v1 * v2
                    r = {m: v for m, v in n.items() if v}
                return r
        self.atoms[t.get_id()] = t
        return {(t.get_id(),): 1}
    atoms = None
    def akey(self, a):
        """an order of atoms that does not depend on when the terms were made"""
        k = self.atom_key.get(a)
        if k is None or k[0] is not self.atoms[a]: k = self.atom_key[a] = (self.atoms[a], self.atoms[a].sexpr()[:400])
        return k[1]
    def mkey(self, m): return (len(m), sorted(self.akey(a) for a in m))
    def unpoly(self, p):
        ts = []
        for m, v in sorted(p.items(), key=lambda x: self.mkey(x[0])):
            fs = [self.atoms[a] for a in sorted(m, key=self.akey)]
            if v != 1 or not fs: fs = [IntVal(v)] + fs
            t = fs[0]
            for f in fs[1:]: t = t * f
            ts.append(t)
        if not ts: return IntVal(0)
        t = ts[0]
        for x in ts[1:]: t = t + x
        return t
    def divide(self, e, w):
        """polynomial division e = q*w + rem (syntactic)"""
        pe = self.poly(e); pw = self.poly(w)
        if is_int_value(w):
            n = w.as_long()
            q = {}; r = {}
            for m, v in pe.items():
                if m == ():
                    a, b = divmod(v, n)
                    if a: q[m] = a
                    if b: r[m] = b
                elif v % n == 0: q[m] = v // n
                else: r[m] = v
            return self.unpoly(q), self.unpoly(r)
        if not pw: return e, IntVal(0)
        lead = max(pw.keys(), key=self.mkey)
        lc = pw[lead]
        q = {}; pe = dict(pe)
        for _ in range(50):
            step = None
            for m, v in sorted(pe.items(), key=lambda x: self.mkey(x[0]), reverse=True):
                if len(m) < len(lead): continue
                ms = list(m); ok = True
                for a in lead:
                    if a in ms: ms.remove(a)
                    else: ok = False; break
                if not (ok and v % lc == 0 and v // lc > 0): continue
                ms = tuple(ms); c = v // lc; np = dict(pe); good = True
                # tentative: subtract c*ms*w ; require all monomials of w be present (else a bare variable equal to a summand of w)
                for m2, v2 in pw.items():
                    x = tuple(sorted(ms + m2))
                    if ms == () and np.get(x, 0) < c * v2: good = False
                    np[x] = np.get(x, 0) - c * v2
                if good: step = (ms, c, np); break
            if step is None: break
            ms, c, np = step
            pe = {m: v for m, v in np.items() if v}
            q[ms] = q.get(ms, 0) + c
        return self.unpoly(q), self.unpoly(pe)

    # ------------------------------------------------------------ obligations & facts
    def oblige(self, st, kind, name, goal, extra=()):
        if self.dry: return
        if isinstance(goal, bool): goal = BoolVal(goal)
        if is_true(goal): 
            self.trivial += 1
            return
        pre = self.top + ': ' if self.top else ''
        self.obls.append(Obl(pre + name, kind, st.facts, list(st.pc) + list(extra), goal, self.where()))
    trivial = 0
    def where(self):
        return '/'.join(x for x in self.trace[-3:])
    def assume(self, st, f):
        if isinstance(f, bool): f = BoolVal(f)
        if is_true(f): return
        if st.pc: f = Implies(conj(list(st.pc)), f)
        st.facts = st.facts.add(f)
    def axiom(self, st, f):
        st.facts = st.facts.add(f)

    def havoc_val(self, ty, name='h'):
        if ty[0] == 'ptr': return UNDEFP
        if ty[0] == 'void': return None
        if ty[0] in ('struct',):
            return [self.havoc_val(t, name) for t in ty[2]]
        return self.fresh(name, self.sort_of(ty))

    # ------------------------------------------------------------ merging
    def merge(self, sts):
        sts = [s for s in sts if not any(is_false(c) for c in s.pc)]
        if not sts: return None
        sts = list(sts)
        # pairwise merging of complementary siblings
        changed = True
        while len(sts) > 1 and changed:
            changed = False
            for i in range(len(sts)):
                for j in range(i + 1, len(sts)):
                    a, b = sts[i].pc, sts[j].pc
                    if len(a) == len(b) and a and all(x is y or x.eq(y) for x, y in zip(a[:-1], b[:-1])) and (neg(a[-1]).eq(b[-1]) or neg(b[-1]).eq(a[-1])):
                        m = self.merge2(sts[i], sts[j])
                        sts[i] = m; del sts[j]; changed = True
                        break
                if changed: break
        while len(sts) > 1:
            b = sts.pop(); a = sts.pop()
            sts.append(self.merge2(a, b))
        return sts[0]
    def merge2(self, a, b):
        n = 0
        while n < len(a.pc) and n < len(b.pc) and (a.pc[n] is b.pc[n] or a.pc[n].eq(b.pc[n])): n += 1
        ra, rb = conj(list(a.pc[n:])), conj(list(b.pc[n:]))
        s = State()
        if neg(ra).eq(rb) or neg(rb).eq(ra) or is_true(ra) or is_true(rb):
            s.pc = a.pc[:n]
        else:
            s.pc = a.pc[:n] + (Or(ra, rb),)
        c = ra if not is_true(ra) else neg(rb)
        for k in list(a.mem) + [k for k in b.mem if k not in a.mem]:
            x = a.mem.get(k); y = b.mem.get(k)
            if x is None or y is None:
                r, ty = self.regions[k]
                i = r.init[k[1]] if k[1] in r.init else self.initial(r, k[1], ty)
                x = x or i; y = y or i
            if x is y: s.mem[k] = x
            else: s.mem[k] = Mix(c, x, y)
        for k in list(a.gh) + [k for k in b.gh if k not in a.gh]:
            x = a.gh.get(k); y = b.gh.get(k)
            if x is None: x = self.ghost_init[k]
            if y is None: y = self.ghost_init[k]
            s.gh[k] = x if x is y else (ite(c, x, y) if isinstance(x, ExprRef) else self.merge_ghost(c, x, y))
        for k in list(a.phi) + [k for k in b.phi if k not in a.phi]:
            if k in a.phi and k in b.phi:
                s.phi[k] = self.merge_val(c, a.phi[k], b.phi[k])
            else: s.phi[k] = a.phi.get(k, b.phi.get(k))
        if a.facts is b.facts: s.facts = a.facts
        else: s.facts = Facts((a.facts, b.facts), None)
        return s
    def merge_val(self, c, x, y):
        if isinstance(x, list): return [self.merge_val(c, p, q) for p, q in zip(x, y)]
        if x is None: return y
        return ite(c, x, y)
    def merge_ghost(self, c, x, y):
        if isinstance(x, MemVal): return Mix(c, x, y)
        raise Unsupported('ghost merge')
    ghost_init = None

    # ------------------------------------------------------------ ghost
    def gget(self, st, k):
        if k not in st.gh: st.gh[k] = self.ghost_init[k]
        return st.gh[k]
    def gset(self, st, k, v):
        self.gget(st, k); st.gh[k] = v

    # ------------------------------------------------------------ operands
    def val(self, env, op, ty):
        k = op[0]
        if k == 'loc': 
            if op[1] not in env: raise Unsupported('undefined value %%%s' % op[1])
            return env[op[1]]
        if k == 'int': return self.iconst(ty, op[1])
        if k == 'null': return NULL
        if k == 'undef': return self.havoc_val(ty, 'undef') if ty[0] != 'ptr' else UNDEFP
        if k == 'zero':
            if ty[0] == 'ptr': return NULL
            if ty[0] == 'vec': return BitVecVal(0, self.bits(ty))
            if ty[0] == 'i': return self.iconst(ty, 0)
            raise Unsupported('zeroinit %r' % (ty,))
        if k == 'vecc':
            ew = self.bits(ty[2]); v = 0
            for j, e in enumerate(op[1]):
                n = e[1] if e[0] == 'int' else 0
                v |= (n & ((1 << ew) - 1)) << (ew * j)
            return BitVecVal(v, self.bits(ty))
        if k == 'glob': 
            return GlobP(op[1])
        if k == 'cgep':
            b = self.val(env, op[2], ('ptr',))
            try:
                return self.gep(b, op[1], [self.to_index(self.val(env, v, t), t) for t, v in op[3]])
            except Unsupported:
                return UNDEFP
        if k == 'fpconst': return RealVal(0) if op[1].startswith('0x') else RealVal(op[1])
        if k == 'cstr' or k == 'arrc' or k == 'structc': return None
        if k == 'meta': return None
        if k == 'asm': return None
        raise Unsupported('operand %r' % (op,))
    def to_index(self, v, ty):
        if self.mode == 'int': return v
        if ty[1] < 64: return simplify(SignExt(64 - ty[1], v)) if is_bv_value(v) else SignExt(64 - ty[1], v)
        return v

    # ------------------------------------------------------------ integer ops
    def pow2(self, n):
        return n > 0 and (n & (n - 1)) == 0
    def binop(self, op, a, b, ty, st):
        if ty[0] == 'fp': return self.fresh('fp', RealSort())
        if ty[0] == 'vec':
            if op == 'xor': return a ^ b
            if op == 'and': return a & b
            if op == 'or': return a | b
            n, e = ty[1], self.bits(ty[2])
            la = [Extract(e * k + e - 1, e * k, a) for k in range(n)]
            lb = [Extract(e * k + e - 1, e * k, b) for k in range(n)]
            f = {'add': lambda x, y: x + y, 'sub': lambda x, y: x - y, 'mul': lambda x, y: x * y, 'shl': lambda x, y: x << y,
                 'lshr': LShR, 'ashr': lambda x, y: x >> y}.get(op)
            if f is None: raise Unsupported('vec ' + op)
            return Concat(*[f(x, y) for x, y in reversed(list(zip(la, lb)))])
        w = ty[1]
        if w == 1:
            if op == 'and': return And(a, b)
            if op == 'or': return Or(a, b)
            if op in ('xor', 'add', 'sub'): 
                if is_true(b): return neg(a)
                if is_true(a): return neg(b)
                return Xor(a, b)
            if op == 'mul': return And(a, b)
            raise Unsupported('i1 ' + op)
        if self.mode == 'bv':
            return {'add': lambda: a + b, 'sub': lambda: a - b, 'mul': lambda: a * b, 'udiv': lambda: UDiv(a, b), 'sdiv': lambda: a / b,
                    'urem': lambda: URem(a, b), 'srem': lambda: SRem(a, b), 'and': lambda: a & b, 'or': lambda: a | b, 'xor': lambda: a ^ b,
                    'shl': lambda: a << b, 'lshr': lambda: LShR(a, b), 'ashr': lambda: a >> b}[op]()
        na, nb = is_int_value(a), is_int_value(b)
        if op == 'add': return self.simp_lin(a + b)
        if op == 'sub': return self.simp_lin(a - b)
        if op == 'mul':
            return self.simp_lin(a * b)
        if op in ('udiv', 'urem'):
            a = self.unsigned(a, w); b = self.unsigned(b, w)
            return simplify(a / b if op == 'udiv' else a % b)
        if op in ('sdiv', 'srem'):
            if self.is_nn(a) and self.is_nn(b):
                return simplify(a / b if op == 'sdiv' else a % b)
            q = If(a >= 0, If(b >= 0, a / b, -(a / -b)), If(b >= 0, -((-a) / b), (-a) / (-b)))
            return q if op == 'sdiv' else a - b * q
        if op in ('and', 'or', 'xor'):
            if na and nb:
                m = (1 << w) - 1
                x, y = a.as_long() & m, b.as_long() & m
                return self.iconst(ty, {'and': x & y, 'or': x | y, 'xor': x ^ y}[op])
            if na: a, b, na, nb = b, a, nb, na
            # distribute over ite (constants in the branches)
            if is_app(a) and a.decl().kind() == Z3_OP_ITE and nb:
                return ite(a.arg(0), self.binop(op, a.arg(1), b, ty, st), self.binop(op, a.arg(2), b, ty, st))
            if is_app(a) and a.decl().kind() == Z3_OP_BV2INT and (nb or (is_app(b) and b.decl().kind() == Z3_OP_BV2INT)):
                x = a.arg(0)
                y = BitVecVal(b.as_long(), x.size()) if nb else b.arg(0)
                if not nb and y.size() != x.size():
                    m = max(x.size(), y.size())
                    x = ZeroExt(m - x.size(), x) if x.size() < m else x
                    y = ZeroExt(m - y.size(), y) if y.size() < m else y
                if nb and b.as_long() < 0: x = ZeroExt(w - x.size(), x) if x.size() < w else x; y = BitVecVal(b.as_long(), x.size())
                if op == 'and' and nb and b.as_long() == 1:
                    return If(Extract(0, 0, x) == 1, IntVal(1), IntVal(0))
                return BV2Int({'and': x & y, 'or': x | y, 'xor': x ^ y}[op])
            if op == 'and' and nb:
                n = b.as_long() & ((1 << w) - 1)
                if n == (1 << w) - 1: return a
                if self.pow2(n + 1): return a % (n + 1)
                if self.pow2(n): return If((a / n) % 2 == 1, IntVal(n), IntVal(0))
                lo = (n & -n)
                if self.pow2(n // lo + 1): return ((a / lo) % (n // lo + 1)) * lo
            if op == 'xor' and nb and b.as_long() == -1: return -1 - a
            if op == 'xor' and nb and b.as_long() == 1:
                return If(a % 2 == 0, a + 1, a - 1)
            if op == 'or' and nb and b.as_long() == 0: return a
            if op == 'or' and nb and b.as_long() == 1: return If(a % 2 == 0, a + 1, a)
            # both symbolic: boolean-valued?
            ba, bb = self.as_bool01(a), self.as_bool01(b)
            if ba is not None and bb is not None:
                r = {'and': And(ba, bb), 'or': Or(ba, bb), 'xor': Xor(ba, bb)}[op]
                return If(r, IntVal(1), IntVal(0))
            f = Function('i%s%d' % (op, w), IntSort(), IntSort(), IntSort())
            return f(a, b)
        if op == 'shl':
            if nb: return simplify(a * (1 << b.as_long()))
            f = Function('pow2', IntSort(), IntSort())
            if na and a.as_long() == 1: return f(b)
            return a * f(b)
        if op in ('lshr', 'ashr'):
            if nb:
                if op == 'lshr': a = self.unsigned(a, w)
                return simplify(a / (1 << b.as_long()))
            f = Function('pow2', IntSort(), IntSort())
            return a / f(b)
        raise Unsupported('int op ' + op)
    def simp_lin(self, t):
        s = simplify(t)
        if self.is_nn(t): self.nn(s)
        return s
    def as_bool01(self, t):
        if is_app(t) and t.decl().kind() == Z3_OP_ITE and is_int_value(t.arg(1)) and is_int_value(t.arg(2)):
            x, y = t.arg(1).as_long(), t.arg(2).as_long()
            if (x, y) == (1, 0): return t.arg(0)
            if (x, y) == (0, 1): return Not(t.arg(0))
        return None
    def icmp(self, p, a, b, ty, st):
        if ty[0] == 'ptr': return self.ptrcmp(p, a, b)
        if ty[0] == 'vec':
            n, e = ty[1], self.bits(ty[2])
            out = []
            for k in range(n):
                x = Extract(e * k + e - 1, e * k, a); y = Extract(e * k + e - 1, e * k, b)
                c = {'eq': x == y, 'ne': x != y, 'slt': x < y, 'sgt': x > y, 'ult': ULT(x, y), 'ugt': UGT(x, y), 'sle': x <= y, 'sge': x >= y}[p]
                out.append(If(c, BitVecVal(1, 1), BitVecVal(0, 1)))
            return Concat(*reversed(out))
        w = ty[1]
        if is_bool(a):
            if p == 'eq': return a == b if not is_true(b) and not is_false(b) else (a if is_true(b) else neg(a))
            if p == 'ne': return Xor(a, b) if not is_true(b) and not is_false(b) else (neg(a) if is_true(b) else a)
            raise Unsupported('i1 cmp')
        if self.mode == 'bv':
            return {'eq': a == b, 'ne': a != b, 'slt': a < b, 'sle': a <= b, 'sgt': a > b, 'sge': a >= b, 'ult': ULT(a, b), 'ule': ULE(a, b), 'ugt': UGT(a, b), 'uge': UGE(a, b)}[p]
        if p[0] == 'u':
            a = self.unsigned(a, w); b = self.unsigned(b, w)
            p = 's' + p[1:]
        # comparisons of 0/1 ites
        if p in ('eq', 'ne'):
            for x, y in ((a, b), (b, a)):
                if is_int_value(y) and is_app(x) and x.decl().kind() == Z3_OP_ITE and is_int_value(x.arg(1)) and is_int_value(x.arg(2)):
                    e1 = x.arg(1).as_long() == y.as_long(); e2 = x.arg(2).as_long() == y.as_long()
                    r = x.arg(0) if e1 and not e2 else (neg(x.arg(0)) if e2 and not e1 else BoolVal(e1))
                    return r if p == 'eq' else (neg(r) if not (is_true(r) or is_false(r)) else BoolVal(is_false(r)))
                if is_int_value(y) and is_app(x) and x.decl().kind() == Z3_OP_BV2INT:
                    v = y.as_long(); bv = x.arg(0)
                    if 0 <= v < (1 << bv.size()): r = simplify(bv == v)
                    elif v < 0 and w == bv.size(): r = simplify(bv == BitVecVal(v, bv.size()))
                    else: r = BoolVal(False)
                    return r if p == 'eq' else simplify(Not(r))
        if is_num(a) and is_num(b):
            x, y = a.as_long(), b.as_long()
            return BoolVal({'eq': x == y, 'ne': x != y, 'slt': x < y, 'sle': x <= y, 'sgt': x > y, 'sge': x >= y}[p])
        r = {'eq': a == b, 'ne': a != b, 'slt': a < b, 'sle': a <= b, 'sgt': a > b, 'sge': a >= b}[p]
        if p in ('eq', 'ne') and a.eq(b): return BoolVal(p == 'eq')
        return r
    def ptrcmp(self, p, a, b):
        if p not in ('eq', 'ne'):
            raise Unsupported('pointer order comparison')
        def eq(x, y):
            if isinstance(x, GlobP): x = self.globptr(x)
            if isinstance(y, GlobP): y = self.globptr(y)
            if isinstance(x, PtrAlt): return Or(*[And(c, eq(v, y)) for c, v in x.alts])
            if isinstance(y, PtrAlt): return Or(*[And(c, eq(x, v)) for c, v in y.alts])
            if x is UNDEFP or y is UNDEFP: return self.fresh('ptrcmp', BoolSort())
            if x is NULL and y is NULL: return BoolVal(True)
            if isinstance(x, Handle) and isinstance(y, Handle): return x.t == y.t
            if isinstance(x, Handle) and y is NULL: return x.t == 0
            if isinstance(y, Handle) and x is NULL: return y.t == 0
            if isinstance(x, Ptr) and isinstance(y, Ptr):
                if x.r is not y.r: return BoolVal(False)
                x, y = self.past_end(x), self.past_end(y)
                if len(x.path) > len(y.path): x, y = y, x
                cs = [i == j for i, j in zip(x.idx, y.idx)]
                for c, d in zip(x.path, y.path):
                    if c[0] == 'f':
                        if c[1] != d[1]: return BoolVal(False)
                    else: cs.append(c[1] == d[1])
                for d in y.path[len(x.path):]:      # the first part of an object has the object's address
                    if d[0] == 'a': cs.append(d[1] == 0)
                    elif isinstance(d[1], Virt) or d[1] != 0: return BoolVal(False)
                return simplify(conj(cs))
            if isinstance(x, Ptr) and y is NULL:
                return x.r.extra.get('isnull', BoolVal(False))
            if isinstance(y, Ptr) and x is NULL: 
                return y.r.extra.get('isnull', BoolVal(False))
            return BoolVal(False)
        e = eq(a, b)
        return e if p == 'eq' else (neg(e) if not is_true(e) and not is_false(e) else BoolVal(is_false(e)))
    def cast(self, op, a, f, t):
        if f[0] == 'vec' or t[0] == 'vec':
            if op == 'bitcast':
                if f[0] == 'vec' and t[0] == 'vec': return a
                if f[0] == 'i' and t[0] == 'vec': return self.to_bv(a, f[1])
                if f[0] == 'vec' and t[0] == 'i': return self.from_bv(a, t)
                if f[0] == 'fp' or t[0] == 'fp': raise Unsupported('fp bitcast')
            n, e1, e2 = f[1], self.bits(f[2]), self.bits(t[2])
            ls = [Extract(e1 * k + e1 - 1, e1 * k, a) for k in range(n)]
            if op == 'sext': return Concat(*[SignExt(e2 - e1, x) for x in reversed(ls)])
            if op == 'zext': return Concat(*[ZeroExt(e2 - e1, x) for x in reversed(ls)])
            if op == 'trunc': return Concat(*[Extract(e2 - 1, 0, x) for x in reversed(ls)])
            raise Unsupported('vec cast ' + op)
        if f[0] == 'fp' or t[0] == 'fp':
            if t[0] == 'fp': return self.fresh('fp', RealSort())
            return self.fresh('fpi', self.sort_of(t))
        if op == 'bitcast': return a
        if op in ('ptrtoint', 'inttoptr'):
            if op == 'ptrtoint': return self.fresh('p2i', self.sort_of(t))
            if self.mode == 'int' and not is_int_value(a): return Handle(a)
            raise Unsupported('inttoptr')
        fw, tw = f[1], t[1]
        if fw == 1:
            if self.mode == 'int':
                one = 1 if op == 'zext' else -1
                if is_true(a): return IntVal(one)
                if is_false(a): return IntVal(0)
                return If(a, IntVal(one), IntVal(0))
            return If(a, BitVecVal(1 if op == 'zext' else -1, tw), BitVecVal(0, tw))
        if self.mode == 'bv':
            if op == 'zext': return ZeroExt(tw - fw, a)
            if op == 'sext': return SignExt(tw - fw, a)
            if tw == 1: return Extract(0, 0, a) == 1
            return Extract(tw - 1, 0, a)
        if op == 'sext':
            if is_app(a) and a.decl().kind() == Z3_OP_BV2INT and a.arg(0).size() == fw:
                return BV2Int(a.arg(0), True) if False else If(Extract(fw-1, fw-1, a.arg(0)) == 1, a - (1 << fw), a)
            return a
        if op == 'zext':
            if is_int_value(a): return IntVal(a.as_long() & ((1 << fw) - 1))
            return self.unsigned(a, fw)
        if op == 'trunc':
            if is_int_value(a): return self.iconst(t, a.as_long())
            if tw == 1:
                b = self.as_bool01(a)
                if b is not None: return b
                if is_app(a) and a.decl().kind() == Z3_OP_BV2INT: return Extract(0, 0, a.arg(0)) == 1
                if f[1] == 8: return a != 0
                return a % 2 == 1
            if is_app(a) and a.decl().kind() == Z3_OP_BV2INT:
                x = a.arg(0)
                if x.size() <= tw: return a
                return BV2Int(Extract(tw - 1, 0, x))
            if is_app(a) and a.decl().kind() == Z3_OP_ITE:
                return ite(a.arg(0), self.cast(op, a.arg(1), f, t), self.cast(op, a.arg(2), f, t))
            if tw <= 16 and not self.opts.get('loose_trunc'):
                h = 1 << (tw - 1)
                return If(And(a >= -h, a < h), a, (a + h) % (2 * h) - h)
            return a
        raise Unsupported('cast ' + op)

    # ------------------------------------------------------------ running
    def loops_of(self, fn):
        if hasattr(fn, '_loops'): return fn._loops
        names = list(fn.blocks)
        entry = names[0]
        # RPO
        order = []; seen = set()
        def dfs(b):
            st = [(b, iter(fn.blocks[b].succ))]; seen.add(b)
            while st:
                x, it = st[-1]
                for s in it:
                    if s not in seen:
                        seen.add(s); st.append((s, iter(fn.blocks[s].succ))); break
                else:
                    order.append(x); st.pop()
        dfs(entry)
        order.reverse()
        num = {b: i for i, b in enumerate(order)}
        idom = {entry: entry}
        ch = True
        while ch:
            ch = False
            for b in order[1:]:
                ps = [p for p in fn.blocks[b].pred if p in idom]
                if not ps: continue
                n = ps[0]
                for p in ps[1:]:
                    x, y = n, p
                    while x != y:
                        while num[x] > num[y]: x = idom[x]
                        while num[y] > num[x]: y = idom[y]
                    n = x
                if idom.get(b) != n: idom[b] = n; ch = True
        def dom(a, b):
            while True:
                if a == b: return True
                if b == entry: return False
                b = idom[b]
        loops = {}
        for b in order:
            for s in fn.blocks[b].succ:
                if num[s] <= num[b]:
                    if not dom(s, b): raise Unsupported('irreducible loop in ' + fn.name)
                    L = loops.setdefault(s, {'header': s, 'blocks': {s}, 'latches': []})
                    L['latches'].append(b)
                    stk = [b]
                    while stk:
                        x = stk.pop()
                        if x in L['blocks']: continue
                        L['blocks'].add(x); stk.extend(fn.blocks[x].pred)
        fn._loops = loops; fn._order = order; fn._num = num
        fn._looplist = sorted(loops, key=lambda h: num[h])
        return loops

    def run(self, fn, args, st, inline=True):
        """execute fn symbolically; returns (retval, final state)"""
        loops = self.loops_of(fn)
        env = {}
        for (ty, nm, at), v in zip(fn.params, args):
            env[nm] = v
        fr = {'fn': fn, 'env': env, 'rets': [], 'id': next(self.counter)}
        self.inv_stack.append(fn.name)
        if len(self.inv_stack) > 12: raise Unsupported('inline depth')
        entry = fn._order[0]
        outs = self.region(fr, set(fn.blocks), entry, [(None, st)], None)
        self.inv_stack.pop()
        if not fr['rets']:
            return None, None
        for v, s in fr['rets']:
            s.phi = {'ret': v} if v is not None else {}
        m = self.merge([s for v, s in fr['rets']])
        if m is None: return None, None
        r = m.phi.get('ret'); m.phi = {}
        return r, m

    def region(self, fr, blocks, start, incoming, active):
        """execute the blocks of a region (loop body or function); returns list of (target, pred, state) leaving it, incl. back edges"""
        fn = fr['fn']
        inc = {start: list(incoming)}
        leaving = []
        loops = fn._loops
        order = sorted(blocks, key=lambda b: fn._num[b])
        done = set()
        for b in order:
            if b not in inc or b in done: continue
            if b in loops and b != active:
                L = loops[b]
                done |= L['blocks']
                outs = self.loop(fr, L, inc[b])
            else:
                outs = self.block(fr, b, inc[b], header_active=(b == active))
            for tgt, pred, s in outs:
                if any(is_false(c) for c in s.pc): continue
                if tgt in blocks and not (tgt == active):
                    inc.setdefault(tgt, []).append((pred, s))
                else:
                    leaving.append((tgt, pred, s))
        return leaving

    def block(self, fr, b, incoming, header_active=False):
        fn = fr['fn']; env = fr['env']; B = fn.blocks[b]
        if header_active:
            st = incoming[0][1]      # phis already bound in env
        else:
            sts = []
            for pred, s in incoming:
                s = s.copy() if len(incoming) > 1 or B.phis else s
                for ph in B.phis:
                    op = next(v for v, p in ph.a['inc'] if p == pred)
                    s.phi[ph.res] = self.val(env, op, ph.ty)
                sts.append(s)
            st = self.merge(sts)
            if st is None: return []
            for ph in B.phis: env[ph.res] = st.phi[ph.res]
            st.phi = {}
        return self.body(fr, B, st)

    def body(self, fr, B, st):
        fn = fr['fn']; env = fr['env']
        for ins in B.ins[:-1]:
            self.instr(fr, ins, st)
            if st.gh.get('__dead') is not None: return []
        t = B.ins[-1]
        if t.op == 'br':
            if t.a['c'] is None: return [(t.a['t'], B.name, st)]
            c = self.val(env, t.a['c'], ('i', 1))
            cs = simplify(c) if not (is_true(c) or is_false(c)) else c
            if is_true(cs): return [(t.a['t'], B.name, st)]
            if is_false(cs): return [(t.a['f'], B.name, st)]
            if t.a['t'] == t.a['f']: return [(t.a['t'], B.name, st)]
            for p in st.pc:   # already decided on this path
                if p.eq(c): return [(t.a['t'], B.name, st)]
                if neg(p).eq(c) or p.eq(neg(c)): return [(t.a['f'], B.name, st)]
            s1 = st.copy(); s2 = st.copy()
            s1.pc = st.pc + (c,); s2.pc = st.pc + (neg(c),)
            return [(t.a['t'], B.name, s1), (t.a['f'], B.name, s2)]
        if t.op == 'switch':
            v = self.val(env, t.a['v'], t.ty)
            outs = []; s = st
            bytgt = []
            for n, tgt in t.a['cases']:
                c = self.icmp('eq', v, self.iconst(t.ty, n), t.ty, st)
                c2 = simplify(c)
                if is_true(c2):
                    outs.append((tgt, B.name, s)); return self.join_same(outs, B.name)
                if is_false(c2): continue
                s1 = s.copy(); s1.pc = s.pc + (c,)
                outs.append((tgt, B.name, s1))
                s = s.copy(); s.pc = s.pc + (neg(c),)
            outs.append((t.a['d'], B.name, s))
            return self.join_same(outs, B.name)
        if t.op == 'ret':
            v = self.val(env, t.a['v'], t.ty) if t.a['v'] is not None else None
            fr['rets'].append((v, st))
            return []
        if t.op == 'invoke':
            self.call(fr, t, st)
            if st.gh.get('__dead') is not None: return []
            return [(t.a['normal'], B.name, st)]
        if t.op in ('unreachable', 'resume'): return []
        raise Unsupported('terminator ' + t.line)
    def join_same(self, outs, name):
        by = {}
        for tgt, p, s in outs: by.setdefault(tgt, []).append(s)
        return [(tgt, name, self.merge(ss)) for tgt, ss in by.items()]

    # ------------------------------------------------------------ loops
    def loop(self, fr, L, incoming):
        fn = fr['fn']; env = fr['env']; H = fn.blocks[L['header']]
        sts = []
        for pred, s in incoming:
            s = s.copy()
            for ph in H.phis:
                op = next(v for v, p in ph.a['inc'] if p == pred)
                s.phi[ph.res] = self.val(env, op, ph.ty)
            sts.append(s)
        st0 = self.merge(sts)
        if st0 is None: return []
        phi0 = {ph.res: st0.phi[ph.res] for ph in H.phis}
        st0.phi = {}
        # try complete unrolling
        if not ('nounroll' in self.opts and self.opts['nounroll'](self.calls_in(fn, L['blocks']))) and self.try_unroll(fr, L, st0, phi0) and not self.too_long(fr, L, st0, phi0):
            return self.unroll(fr, L, st0, phi0)
        return self.cut(fr, L, st0, phi0)

    def exits_of(self, fr, L):
        fn = fr['fn']
        return [b for b in L['blocks'] if any(s not in L['blocks'] for s in fn.blocks[b].succ)]

    def try_unroll(self, fr, L, st0, phi0):
        """decide syntactically: an exiting block's condition is literal for the entry values"""
        fn = fr['fn']; env = dict(fr['env'])
        H = fn.blocks[L['header']]
        for k, v in phi0.items(): env[k] = v
        if self.short_walk(fn, L, H, phi0, env): return True
        # find exit condition in header computed purely from phis/constants
        t = H.ins[-1]
        b = H
        hops = 0
        while True:
            t = b.ins[-1]
            if t.op == 'br' and t.a['c'] is not None and any(s not in L['blocks'] for s in (t.a['t'], t.a['f'])):
                break
            if t.op == 'br' and t.a['c'] is None and t.a['t'] in L['blocks'] and t.a['t'] != L['header'] and hops < 3 and False:
                b = fn.blocks[t.a['t']]; hops += 1; continue
            # rotated loop: look at latch condition
            for lt in L['latches']:
                t = fn.blocks[lt].ins[-1]
                if t.op == 'br' and t.a['c'] is not None and any(s not in L['blocks'] for s in (t.a['t'], t.a['f'])):
                    return self.lit(self.pure(fn, L, t.a['c'], env))
            return False
        return self.lit(self.pure(fn, L, t.a['c'], env))
    def short_walk(self, fn, L, H, phi0, env):
        """a pointer walks over a fixed number of elements (the constructor of an array member)"""
        if len(H.phis) != 1 or L['latches'] != [L['header']]: return False
        t = H.ins[-1]; p = H.phis[0]; v = phi0[p.res]
        if t.op != 'br' or t.a['c'] is None or t.a['c'][0] != 'loc' or not isinstance(v, Ptr): return False
        c = self.definition(fn, t.a['c'][1])
        if c is None or c.op != 'icmp' or c.ty[0] != 'ptr': return False
        e = [env[o[1]] for o in (c.a['a'], c.a['b']) if o[0] == 'loc' and o[1] in env and not self.defined_in(fn, L, o[1])]
        if len(e) != 1 or not isinstance(e[0], Ptr) or e[0].r is not v.r: return False
        n = lambda q: q.path[-1][1] if q.path and q.path[-1][0] == 'a' else q.idx[-1]
        d = simplify(n(e[0]) - n(v))
        return is_num(d) and (d.as_long() if not is_bv(d) else d.as_signed_long()) in (*range(1, 9), *range(-8, 0))
    def too_long(self, fr, L, st0, phi0):
        """a constant-step counter would still be inside its constant bound after the unrolling limit (decides the strategy only)"""
        fn = fr['fn']; H = fn.blocks[L['header']]; ph = dict(phi0); moved = False
        for p in H.phis:
            v = phi0[p.res]
            if not isinstance(v, ExprRef) or not is_num(simplify(v)): continue
            for o, q in p.a['inc']:
                if q not in L['blocks'] or o[0] != 'loc': continue
                d = self.definition(fn, o[1])
                if d is None or d.op != 'bin' or d.a['op'] not in ('add', 'sub'): continue
                c = [x[1] for x in (d.a['a'], d.a['b']) if x[0] == 'int']
                if ('loc', p.res) not in (d.a['a'], d.a['b']) or len(c) != 1: continue
                c = c[0] if d.a['op'] == 'add' else -c[0]
                w = p.ty[1]; c = c - (1 << w) if c >= 1 << (w - 1) else c
                ph[p.res] = simplify(v + c * self.UNROLL if self.mode == 'int' else v + BitVecVal(c * self.UNROLL, w)); moved = True
        if not moved: return False
        for lb in [H] + [fn.blocks[x] for x in L['latches']]:
            t = lb.ins[-1]
            if t.op != 'br' or t.a['c'] is None or not any(s not in L['blocks'] for s in (t.a['t'], t.a['f'])): continue
            env = dict(fr['env']); env.update(ph)
            c = self.pure(fn, L, t.a['c'], env)
            if c is None: return False
            c = simplify(c)
            return (is_true(c) and t.a['t'] in L['blocks']) or (is_false(c) and t.a['f'] in L['blocks'])
        return False
    def lit(self, v):
        if v is None: return False
        v = simplify(v)
        return is_true(v) or is_false(v)
    def pure(self, fn, L, op, env, depth=0):
        """evaluate an operand from pure integer instructions of the loop, else None"""
        if op[0] != 'loc': 
            return ('c', op)[1] and self._cval(op)
        if op[1] in env and not self.defined_in(fn, L, op[1]): return env[op[1]]
        H = fn.blocks[L['header']]
        if any(ph.res == op[1] for ph in H.phis): return env[op[1]]
        if depth > 8: return None
        ins = self.definition(fn, op[1])
        if ins is None or ins.op not in ('icmp', 'bin', 'cast'): return None
        def sub(o, ty):
            if o[0] == 'int': return self.iconst(ty, o[1])
            if o[0] == 'loc': return self.pure(fn, L, o, env, depth + 1)
            return None
        if ins.op == 'icmp':
            a, b = sub(ins.a['a'], ins.ty), sub(ins.a['b'], ins.ty)
            if a is None or b is None or not isinstance(a, ExprRef) or not isinstance(b, ExprRef): return None
            return self.icmp(ins.a['p'], a, b, ins.ty, None)
        if ins.op == 'cast':
            a = sub(ins.a['a'], ins.a['from'])
            if a is None or not isinstance(a, ExprRef): return None
            return self.cast(ins.a['op'], a, ins.a['from'], ins.ty)
        a, b = sub(ins.a['a'], ins.ty), sub(ins.a['b'], ins.ty)
        if a is None or b is None: return None
        return self.binop(ins.a['op'], a, b, ins.ty, None)
    def _cval(self, op):
        return BoolVal(op[1] != 0) if op[0] == 'int' else None
    def definition(self, fn, name):
        if not hasattr(fn, '_defs'):
            fn._defs = {}
            for b in fn.blocks.values():
                for i in b.phis + b.ins:
                    if i.res is not None: fn._defs[i.res] = (i, b.name)
        d = fn._defs.get(name)
        return d[0] if d else None
    def defined_in(self, fn, L, name):
        self.definition(fn, name)
        d = fn._defs.get(name)
        return d is not None and d[1] in L['blocks']

    def unroll(self, fr, L, st0, phi0):
        fn = fr['fn']; env = fr['env']; H = fn.blocks[L['header']]
        outs = []
        st = st0; ph = phi0
        for it in range(self.UNROLL + 1):
            if it == self.UNROLL: raise Unsupported('unrolling limit in ' + fn.name)
            for k, v in ph.items(): env[k] = v
            lv = self.region(fr, L['blocks'], L['header'], [(None, st.copy())], L['header'])
            backs = []
            for tgt, pred, s in lv:
                if tgt == L['header']:
                    s = s.copy()
                    for p in H.phis:
                        op = next(v for v, q in p.a['inc'] if q == pred)
                        s.phi[p.res] = self.val(env, op, p.ty)
                    backs.append(s)
                else:
                    outs.append(self.leave(fr, L, tgt, pred, s))
            if not backs: break
            st = self.merge(backs)
            if st is None: break
            ph = {p.res: st.phi[p.res] for p in H.phis}; st.phi = {}
        return self.close_outs(fr, L, outs)

    def live_out(self, fn, L):
        """SSA names defined in the loop and used outside it"""
        key = '_lo_' + L['header']
        if hasattr(fn, key): return getattr(fn, key)
        defs = set()
        for b in L['blocks']:
            for i in fn.blocks[b].phis + fn.blocks[b].ins:
                if i.res is not None: defs.add(i.res)
        used = set()
        for b in fn.blocks.values():
            if b.name in L['blocks']: continue
            for i in b.ins + b.phis:
                for n in self.uses(i): 
                    if n in defs: used.add(n)
        setattr(fn, key, used)
        return used
    def uses(self, i):
        out = []
        def w(x):
            if isinstance(x, tuple):
                if len(x) == 2 and x[0] == 'loc': out.append(x[1])
                else:
                    for y in x: w(y)
            elif isinstance(x, list):
                for y in x: w(y)
            elif isinstance(x, dict):
                for y in x.values(): w(y)
        w(i.a)
        return out
    def leave(self, fr, L, tgt, pred, s):
        """record values of loop-defined names at this exit (phi operands of target are resolved now)"""
        fn = fr['fn']; env = fr['env']
        s = s.copy()
        vals = {n: env[n] for n in self.live_out(fn, L) if n in env}
        return (tgt, pred, s, vals)
    def close_outs(self, fr, L, outs):
        """merge exits per (target, pred); bind live-out values"""
        env = fr['env']; res = {}
        for tgt, pred, s, vals in outs:
            res.setdefault((tgt, pred), []).append((s, vals))
        final = []
        names = set()
        for (tgt, pred), lst in res.items():
            for s, vals in lst: s.phi = dict(vals); names |= set(vals)
            m = self.merge([s for s, _ in lst])
            if m is None: continue
            final.append((tgt, pred, m, dict(m.phi))); m.phi = {}
        # a name may differ between exits: merge by path condition when more than one exit
        if len(final) == 1:
            for n, v in final[0][3].items(): env[n] = v
        else:
            for n in names:
                vs = [(conj(list(m.pc)), v[n]) for _, _, m, v in final if n in v]
                if not vs: continue
                v0 = vs[-1][1]
                for c, v in reversed(vs[:-1]):
                    if v is v0: continue
                    v0 = self.merge_val(c, v, v0)
                env[n] = v0
        return [(t, p, m) for t, p, m, _ in final]

    def calls_in(self, fn, blocks, seen=None):
        """plain names of the functions called in these blocks, through contract-less helpers"""
        import build
        seen = set() if seen is None else seen; out = set()
        for b in blocks:
            B = fn.blocks[b]
            for i in B.ins:
                if i.op not in ('call', 'invoke') or i.a['f'][0] != 'glob': continue
                n = i.a['f'][1]
                out.add(build.base_name(n))
                if n in seen or self.contracts.lookup(n): continue
                seen.add(n)
                f = self.mod.func(n) if n in self.mod._raw else None
                if f is not None: out |= self.calls_in(f, list(f.blocks), seen)
        return out
    def main_iv(self, ivs, phi0):
        """the variable that counts the iterations: a step of 1 and a constant start if there is one"""
        c = [(name, s0, step) for name, (s0, step, dv) in ivs.items() if step != 0]; u = [x for x in c if abs(x[2]) == 1 and not isinstance(phi0[x[0]], Ptr)]
        for x in u:
            if is_num(x[1]): return x
        return u[0] if u else c[0] if c else None
    def cut(self, fr, L, st0, phi0):
        fn = fr['fn']; env = fr['env']; H = fn.blocks[L['header']]
        saved_obls = len(self.obls)
        mark = self.mark()
        # ---- dry run to discover written leaves, ghost changes and phi shapes (iterated: pointers may widen)
        L['ctx'] = None
        def dryrun(sub):
            self.dry += 1
            self.cutdepth += 1
            self.loopstack.append(L)
            try:
                dphi = {}
                for ph in H.phis:
                    v = phi0[ph.res]
                    if isinstance(v, ExprRef): dphi[ph.res] = self.fresh('d_' + ph.res, v.sort())
                    elif isinstance(v, Ptr): dphi[ph.res] = Ptr(v.r, v.idx[:-1] + (self.fresh('dp', self.isort()),), v.path) if not v.path or v.path[-1][0]=='f' else Ptr(v.r, v.idx, v.path[:-1] + (('a', self.fresh('dp', self.isort())),))
                    elif isinstance(v, Handle): dphi[ph.res] = Handle(self.fresh('dh', IntSort()), v.kind)
                    else: dphi[ph.res] = v
                    if isinstance(v, ExprRef) and v.sort() == IntSort() and self.is_nn(v): self.nn(dphi[ph.res])
                for k, f in sub.items(): dphi[k] = f(dphi)
                for k, v in dphi.items(): env[k] = v
                d0 = st0.copy()
                dgh = {}
                if self.mode == 'int':     # integer ghosts (allocation instance, stream position...) may vary with the iteration
                    for g in list(self.ghost_init) + [g for g in st0.gh if g not in self.ghost_init]:
                        v = st0.gh.get(g, self.ghost_init.get(g))
                        if g == 'hp' or g in self.opts.get('varying_ghosts', ()):
                            dgh[g] = self.fresh('d_%s' % g, IntSort()); d0.gh[g] = dgh[g]
                known = L.setdefault('known', set())      # leaves the loop writes, when the contents at entry are not typical of later iterations
                while True:
                    if known:
                        d0 = d0.copy()
                        for k in known:
                            if k in self.regions and self.regions[k][1][0] != 'ptr':
                                r, ty = self.regions[k]; nd = len(r.extra.get('shape', ())) + r.dims + sum(1 for x in k[1] if x == '*')
                                f = self.fresh_fn('d_' + r.name, *([self.isort()] * nd), self.sort_of(ty)); d0.mem[k] = Base(lambda *i, f=f: f(*i), r.name)
                    lv = self.region(fr, L['blocks'], L['header'], [(None, d0.copy())], L['header'])
                    backs = []
                    for tgt, pred, s in lv:
                        if tgt == L['header']:
                            s = s.copy()
                            for p in H.phis:
                                op = next(v for v, q in p.a['inc'] if q == pred)
                                s.phi[p.res] = self.val(env, op, p.ty)
                            backs.append(s)
                    dback = self.merge(backs) if backs else None
                    if not self.opts.get('dryfix') or dback is None: break
                    more = {k for k, m in dback.mem.items() if k not in known and m is not (d0.mem[k] if k in d0.mem else self.initial(*self._rl(k)))}
                    if not more: break
                    known |= more
                allouts = [s for t, p, s in lv]
            finally:
                self.dry -= 1
                self.loopstack.pop()
                self.cutdepth -= 1
            return dphi, d0, dgh, dback, allouts
        dphi, d0, dgh, dback, allouts = dryrun({})
        if dback is None:
            # body never iterates: execute once
            for k, v in phi0.items(): env[k] = v
            lv = self.region(fr, L['blocks'], L['header'], [(None, st0.copy())], L['header'])
            return self.close_outs(fr, L, [self.leave(fr, L, t, p, s) for t, p, s in lv])
        # induction variables
        def findivs():
            ivs = {}
            for ph in H.phis:
                v, b = dphi[ph.res], dback.phi[ph.res]
                if isinstance(v, ExprRef) and not is_bool(v):
                    d = simplify(b - v)
                    if is_num(d): ivs[ph.res] = (phi0[ph.res], d.as_long() if not is_bv(d) else d.as_signed_long(), dphi[ph.res])
                elif isinstance(v, Ptr) and isinstance(b, Ptr) and b.r is v.r:
                    x = v.path[-1][1] if v.path and v.path[-1][0] == 'a' else v.idx[-1]
                    y = b.path[-1][1] if b.path and b.path[-1][0] == 'a' else b.idx[-1]
                    x0 = phi0[ph.res].path[-1][1] if v.path and v.path[-1][0] == 'a' else phi0[ph.res].idx[-1]
                    d = simplify(y - x)
                    if is_num(d): ivs[ph.res] = (x0, d.as_long(), x)
            return ivs
        ivs = findivs(); main = self.main_iv(ivs, phi0); lock = {}
        if main and self.mode == 'int' and abs(main[2]) == 1:      # integer variables that advance in lockstep with the main one: expressed by it
            lock = {k: (lambda ph, s0=s0, d=d: self.simp(s0 + d * main[2] * (ph[main[0]] - main[1]))) for k, (s0, d, dv) in ivs.items() if k != main[0] and d != 0 and isinstance(phi0[k], ExprRef) and phi0[k].sort() == IntSort()}
            if lock and isinstance(phi0[main[0]], ExprRef) and phi0[main[0]].sort() == IntSort():
                dphi, d0, dgh, dback, allouts = dryrun(lock); ivs = findivs()
                if dback is None or any(k not in ivs for k in list(lock) + [main[0]]): raise Unsupported('induction variables change between two dry runs')
                self.note('lockstep induction variables are related by construction')
            else: lock = {}
        written = {}
        for k, m in dback.mem.items():
            m0 = st0.mem.get(k)
            if m0 is None:
                r, ty = self.regions[k]
                m0 = self.initial(r, k[1], ty)
            if m is not m0 and m is not d0.mem.get(k, m0):
                written[k] = (m0, m, d0.mem.get(k, m0))
        # ---- contexts
        C = LoopCtx()
        C.ex = self; C.fn = fn; C.header = L['header']; C.L = L; C.entry = st0; C.phi0 = phi0
        C.written = {self.regions[k][0].id: self.regions[k][0] for k in written}
        C.wkeys = set(written)
        C.dry_back = dback; C.parent = self.loopstack[-1].get('ctx') if self.loopstack else None
        C.frame = fr
        C.depth = len([x for x in self.loopstack])
        C.ordinal = fn._looplist.index(L['header'])
        C.calls = self.calls_in(fn, L['blocks'])
        L['ctx'] = C
        # ---- build havoc state
        sh = st0.copy()
        hphi = {}
        zero_iv = None
        fixed = self.opts.get('fixed_phis', True)
        for ph in H.phis:
            v = phi0[ph.res]; b = dback.phi[ph.res]
            if isinstance(v, ExprRef):
                if ph.res in ivs and ivs[ph.res][1] == 0:
                    hphi[ph.res] = v; continue
                hphi[ph.res] = self.fresh('phi_' + ph.res, v.sort())
                if v.sort() == IntSort() and self.is_nn(v) and (ph.res in ivs and ivs[ph.res][1] > 0 or self.phi_nn(dphi, dback, ph.res)):
                    self.nn(hphi[ph.res]); self.axiom(sh, hphi[ph.res] >= 0)
            elif isinstance(v, Ptr):
                def chk(b):
                    if isinstance(b, PtrAlt): return all(chk(x) for _, x in b.alts)
                    return isinstance(b, Ptr) and b.r is v.r
                if not chk(b): raise Unsupported('loop pointer changes region')
                if v.path and v.path[-1][0] == 'a':
                    hphi[ph.res] = Ptr(v.r, v.idx, v.path[:-1] + (('a', self.fresh('pidx', self.isort())),))
                else:
                    hphi[ph.res] = Ptr(v.r, v.idx[:-1] + (self.fresh('pidx', self.isort()),), v.path)
            elif isinstance(v, Handle) or (v is NULL and isinstance(b, Handle)):
                hphi[ph.res] = Handle(self.fresh('hphi', IntSort()), b.kind if isinstance(b, Handle) else v.kind)
            else:
                if isinstance(v, (NullP, UndefP)) and b is v: hphi[ph.res] = v
                elif v is UNDEFP: hphi[ph.res] = UNDEFP
                else: raise Unsupported('loop phi %r -> %r' % (v, b))
        # iteration counter: k = (cur - start)/step of a chosen iv
        def ivterm(name, phis):
            v = phis[name]
            if isinstance(v, Ptr): return v.path[-1][1] if v.path and v.path[-1][0] == 'a' else v.idx[-1]
            return v
        C.ivs = []
        for name, (s0, step, dv) in ivs.items():
            if step == 0: continue
            C.ivs.append((name, s0, step))
        main = self.main_iv(ivs, phi0)
        C.main = main
        for name in lock: hphi[name] = lock[name](hphi)
        # all ivs advance in lockstep: relate them to the main one
        if main:
            n0, s0m, stm = main
            for name, s0, step in C.ivs:
                if name == n0 or name in lock: continue
                cur = ivterm(name, hphi); cm = ivterm(n0, hphi)
                if self.mode == 'int':
                    if abs(stm) == 1:
                        self.axiom(sh, cur == s0 + step * ((cm - s0m) * stm))
                elif cur.sort() == cm.sort() and stm == 1:
                    self.axiom(sh, cur == s0 + step * (cm - s0m))
            self.note('lockstep induction variables are related by construction')
        def desc_pred(desc, cur):
            def pred(*idx):
                alts = []
                for d in desc:
                    cs = []
                    for comp, x in zip(d, idx):
                        if comp[0] == 'pt': cs.append(x == comp[1])
                        elif comp[0] == 'rng':
                            lo, hi = comp[1](cur) if callable(comp[1]) else comp[1], comp[2](cur) if callable(comp[2]) else comp[2]
                            cs.append(And(x >= lo, x < hi))
                    alts.append(conj(cs))
                return Or(*alts) if len(alts) != 1 else alts[0]
            return pred
        frames = {}
        for k, (m0, m, mb) in written.items():
            r, ty = self.regions[k]
            desc = None
            if self.mode == 'int' and not (self.opts.get('noframe') and self.opts['noframe'](r, C.depth)):
                ds = self.writes_of(m, mb)
                if ds is not None:
                    desc = self.generalise(ds, mark, main, dphi, phi0, ivterm)
            if ty[0] == 'ptr':
                new = self.havoc_ptr_leaf(k, r, m, mb, m0)
            else:
                nd = len(r.extra.get('shape', ())) + r.dims + sum(1 for x in k[1] if x == '*')
                f = self.fresh_fn('%s%s' % (r.name, ''.join('.' + str(x) for x in k[1])), *([self.isort()] * nd), self.sort_of(ty))
                new = Base(lambda *i, f=f: f(*i), r.name)
                new.fn_decl = f
            if desc is not None:
                cur = ivterm(main[0], hphi) if main else None
                w = Where(desc_pred(desc, cur), new, m0)
                w.desc = [tuple(('pt', c[1]) if c[0] == 'pt' else (('any',) if c[0] == 'any' else ('rng', c[1](cur) if callable(c[1]) else c[1], c[2](cur) if callable(c[2]) else c[2])) for c in d) for d in desc]
                sh.mem[k] = w
                frames[k] = desc
            elif ty[0] == 'ptr':
                # untracked writes of pointers: an arbitrary set of cells holds new pointers, the others are unchanged
                nd = len(r.extra.get('shape', ())) + r.dims + sum(1 for x in k[1] if x == '*')
                w = self.fresh_fn('wr_' + r.name, *([self.isort()] * nd), BoolSort())
                sh.mem[k] = Where(lambda *i, w=w: w(*i), new, m0)
            else:
                sh.mem[k] = new
        C.frames = frames
        if main and main[2] == 1 and self.mode == 'int' and self.opts.get('fills', True):
            self.fills(fr, L, H, st0, sh, dphi, phi0, hphi, dback, written, frames, ivs, main, mark, ivterm)
        # ghosts
        gw = {}
        for g, v in dback.gh.items():
            v0 = st0.gh.get(g, self.ghost_init.get(g))
            if isinstance(v, ExprRef):
                if not v.eq(dgh.get(g, v0)):
                    gw[g] = True
                    sh.gh[g] = self.fresh('g_' + str(g), v.sort())
                    if v.sort() == IntSort() and g in self.ghost_mono: 
                        self.axiom(sh, sh.gh[g] >= v0)
                        if self.is_nn(v0): self.nn(sh.gh[g])
            elif v is not v0:
                gw[g] = True
                sh.gh[g] = self.havoc_ghost(g, v0)
        C.gw = gw
        C.hphi = hphi
        # ---- invariants
        C.cur = st0; C.phi = phi0; C.stage = 'init'
        C.iv = ivterm(main[0], phi0) if main else None
        C.start = main[1] if main else None; C.step = main[2] if main else None
        C.bound = self.find_bound(fr, L, H, main, mark, phi0); C.bound_incl = self.bound_incl; C.bound_strict = self.bound_strict
        cands0 = self.invariants(C)
        for nm, f, opt in cands0:
            self.oblige(st0, 'inv-init', 'loop %s holds on entry' % nm, f)
        C.cur = sh; C.phi = hphi; C.stage = 'hyp'; C.iv = ivterm(main[0], hphi) if main else None
        for nm, f, opt in self.invariants(C):
            self.assume(sh, f)
        if main and self.mode == 'int':
            s0, stp = main[1], main[2]
            self.assume(sh, C.iv >= s0 if stp > 0 else C.iv <= s0)
            self.oblige_skip = True
        # ---- execute the body for real
        for k, v in hphi.items(): env[k] = v
        body0 = sh.copy()
        self.loopstack.append(L); self.cutdepth += 1
        C.havoc = sh
        nrets = len(fr['rets'])
        lv = self.region(fr, L['blocks'], L['header'], [(None, body0)], L['header'])
        self.loopstack.pop(); self.cutdepth -= 1
        outs = []; nb = 0
        for tgt, pred, s in lv:
            if tgt == L['header']:
                s = s.copy()
                nphi = {}
                for p in H.phis:
                    op = next(v for v, q in p.a['inc'] if q == pred)
                    nphi[p.res] = self.val(env, op, p.ty)
                C.cur = s; C.phi = nphi; C.stage = 'step'; C.iv = ivterm(main[0], nphi) if main else None
                for nm, f, opt in self.invariants(C):
                    self.oblige(s, 'inv-step', 'loop %s preserved' % nm, f)
                # iv step and frames really hold in this run
                if main:
                    self.oblige(s, 'iv', 'induction step', ivterm(main[0], nphi) == ivterm(main[0], hphi) + main[2])
                    for name, s0, step in C.ivs:
                        self.oblige(s, 'iv', 'induction step', ivterm(name, nphi) == ivterm(name, hphi) + step)
                for k, desc in frames.items():
                    ds = self.writes_of(s.mem[k], sh.mem[k])
                    if ds is None:
                        self.oblige(s, 'frame', 'loop frame of %s' % self.regions[k][0].name, BoolVal(False)); continue
                    pr = desc_pred(desc, ivterm(main[0], nphi) if main else None)
                    for d in ds:
                        xs = []; hy = []
                        for c in d:
                            if c[0] == 'pt': xs.append(c[1])
                            else:
                                x = self.fresh('fx', self.isort()); xs.append(x)
                                if c[0] == 'rng': hy.append(And(x >= c[1], x < c[2]))
                        g = pr(*xs)
                        sg = simplify(g)
                        if not is_true(sg):
                            self.oblige(s, 'frame', 'loop writes %s only inside its stated range' % self.regions[k][0].name, g, hy)
                for k, m in s.mem.items():
                    if k in written: continue
                    if m is not sh.mem.get(k, self.initial(*self._rl(k))):
                        self.oblige(s, 'frame', 'leaf not written in dry run (%s)' % self.regions[k][0].name, BoolVal(False))
                nb += 1
            else:
                outs.append(self.leave(fr, L, tgt, pred, s))
        del self.regions_tmp[:]
        return self.close_outs(fr, L, outs)
    regions_tmp = []
    ghost_mono = ()
    def _rl(self, k):
        r, ty = self.regions[k]
        return r, k[1], ty
    def note(self, s): self.assumed.add(s)
    def phi_nn(self, dphi, dback, name):
        b = dback.phi[name]
        return isinstance(b, ExprRef) and b.sort() == IntSort() and self.is_nn(b)
    def find_bound(self, fr, L, H, main, mark, phi0):
        """loop-invariant bound compared with the main induction variable in an exiting block"""
        self.bound_incl = False; self.bound_strict = False
        if not main: return None
        fn = fr['fn']; env = fr['env']
        for b in [L['header']] + [x for x in L['latches'] if x != L['header']]:
            t = fn.blocks[b].ins[-1]
            if t.op != 'br' or t.a['c'] is None or t.a['c'][0] != 'loc': continue
            i = self.definition(fn, t.a['c'][1])
            if i is None or i.op != 'icmp': continue
            for x, y in (('a', 'b'), ('b', 'a')):
                o = i.a[x]
                # follow zext/sext of the iv
                while o[0] == 'loc' and o[1] != main[0]:
                    d = self.definition(fn, o[1])
                    if d is not None and d.op == 'cast': o = d.a['a']
                    else: break
                if o == ('loc', main[0]):
                    q = i.a[y]; self.bound_incl = str(i.a.get('pred', i.a.get('p', ''))) in (('sle', 'ule') if x == 'a' else ('sge', 'uge'))
                    self.bound_strict = any(z not in L['blocks'] for z in fn.blocks[b].succ) and str(i.a.get('pred', i.a.get('p', ''))) in (('sgt', 'ugt', 'ne', 'eq') if x == 'a' else ('slt', 'ult', 'ne', 'eq'))
                    if q[0] == 'int': return self.iconst(i.ty, q[1])
                    if q[0] == 'loc' and q[1] in env and isinstance(env[q[1]], ExprRef):
                        v = env[q[1]]
                        if not self.defined_in(fn, L, q[1]) or self.invariant_since(v, mark):
                            return v
        return None
    def invariants(self, C):
        out = []
        if self.loop_spec is not None:
            for x in self.loop_spec(C) or []:
                out.append((x[0], x[1], x[2] if len(x) > 2 else False))
        if C.main and self.mode == 'int':
            s, stp = C.start, C.step
            out.append(('iv range', C.iv >= s if stp > 0 else C.iv <= s, False))
            if C.bound is not None and isinstance(C.bound, ExprRef) and C.bound.sort() == IntSort():
                b = C.bound
                if stp == 1: out.append(('iv bound', Or(C.iv <= (b + 1 if C.bound_incl else b), C.iv <= s), False))
                elif stp == -1: out.append(('iv bound', Or(C.iv >= (b if C.bound_strict else b - 1), C.iv >= s), False))
        return out
    loop_spec = None

    def writes_of(self, m, base):
        """descriptors of the writes between base and m, or None if untracked"""
        out = []; seen = set()
        st = [m]
        while st:
            x = st.pop()
            if x is base or x.id in seen: continue
            seen.add(x.id)
            if isinstance(x, Store):
                out.append(tuple(('pt', i) for i in x.idx)); st.append(x.prev)
            elif isinstance(x, Mix):
                st.append(x.a); st.append(x.b)
            elif isinstance(x, Where) and hasattr(x, 'desc'):
                out.extend(x.desc); st.append(x.b)
            else:
                return None
        return out
    def fills(self, fr, L, H, st0, sh, dphi, phi0, hphi, dback, written, frames, ivs, main, mark, ivterm):
        """leaves the loop fills cell by cell with values that depend on the iteration number alone: their contents at the loop head are known exactly.
        Iteration t writes cells whose component j is mul * t + c; the value is read off the dry run and confirmed by another run from the loop head."""
        dv = ivterm(main[0], dphi); cur = ivterm(main[0], hphi); start = main[1]
        others = []
        for name, (s0, step, d) in ivs.items():
            if name == main[0] or not isinstance(d, ExprRef): continue
            if step == 0:
                if isinstance(dphi[name], ExprRef) and isinstance(phi0[name], ExprRef): others.append((dphi[name], phi0[name]))
            elif d.sort() == IntSort(): others.append((d, s0 + step * (dv - start)))
        cands = {}
        for k, (m0, m, mb) in written.items():
            r, ty = self.regions[k]
            if ty[0] == 'ptr' or k not in frames or mb is not m0: continue
            ds = self.writes_of(m, mb)
            if not ds: continue
            ds = [tuple(('pt', substitute(c[1], *others)) if c[0] == 'pt' and others else c for c in d) for d in ds]
            got = None
            for j in range(len(ds[0])):
                ok = all(d[j][0] == 'pt' and d[j][1].sort() == IntSort() for d in ds)
                if not ok: continue
                t0 = ds[0][j][1]; mul = simplify(substitute(t0, (dv, dv + 1)) - t0)
                if not is_num(mul) or mul.as_long() < 1: continue
                mul = mul.as_long(); cs = [simplify(d[j][1] - mul * dv) for d in ds]
                if not all(self.invariant_since(c, mark) for c in cs): continue
                c0 = cs[0]; offs = [simplify(c - c0) for c in cs]
                if not all(is_num(o) for o in offs): continue
                lo = min(o.as_long() for o in offs)
                if max(o.as_long() for o in offs) - lo >= mul: continue
                got = (j, mul, simplify(c0 + lo)); break
            if got is None: continue
            j, mul, c = got
            xs = [Int('fill_x%d' % n) for n in range(len(ds[0]))]
            tt = (xs[j] - c) if mul == 1 else (xs[j] - c) / mul
            try: v = m.read(tuple(xs))
            except Exception: continue
            if not isinstance(v, ExprRef): continue
            if others: v = substitute(v, *others)
            v = simplify(substitute(v, (dv, simplify(tt))))
            if not self.invariant_since(v, mark): continue
            w = sh.mem[k]
            if not isinstance(w, Where) or not hasattr(w, 'desc'): continue
            vf = Base((lambda *i, v=v, xs=xs: substitute(v, *zip(xs, i))), r.name)
            def pr(*i, tt=tt, xs=xs, j=j, hi=cur): t = simplify(substitute(tt, (xs[j], i[j]))); return And(t >= start, t < hi)
            S_ = Where(pr, vf, m0); S_.desc = w.desc
            cands[k] = (S_, vf, j, mul, c, xs)
        if not cands: return
        env = fr['env']
        for attempt in range(3):
            sv = sh.copy()
            for k, x in cands.items(): sv.mem[k] = x[0]
            for k, v in hphi.items(): env[k] = v
            self.dry += 1; self.cutdepth += 1; self.loopstack.append(L)
            try:
                lv = self.region(fr, L['blocks'], L['header'], [(None, sv)], L['header'])
                backs = [s for t, p, s in lv if t == L['header']]
                # the value must hold on every path back
                bad = [k for k, x in cands.items() if not all(self.fill_ok(s, x, cur, k) for s in backs)]
            except Unsupported: bad = list(cands)
            finally:
                self.dry -= 1; self.loopstack.pop(); self.cutdepth -= 1
            for k in bad: del cands[k]
            if not bad or not cands: break
        else: return
        for k, x in cands.items(): sh.mem[k] = x[0]
    def fill_ok(self, s, x, cur, k):
        S_, vf, j, mul, c, xs = x; m = s.mem.get(k)
        if m is None: return False
        ds = self.writes_of(m, S_)
        if ds is None: return False
        for d in ds:
            if d[j][0] != 'pt': return False
            o = simplify(d[j][1] - mul * cur - c)
            if not is_num(o) or not 0 <= o.as_long() < mul: return False
        for o in range(mul):
            i = list(xs); i[j] = simplify(mul * cur + c + o)
            a, b = simplify(m.read(tuple(i))), simplify(vf.read(tuple(i)))
            if not a.eq(b):
                so = SimpleSolver(); so.set('timeout', 300); so.add(a != b)
                if so.check() != unsat: return False
        return True
    def generalise(self, ds, mark, main, dphi, phi0, ivterm):
        res = []; keys = set()
        iv = ivterm(main[0], dphi) if main else None
        for d in ds:
            nd = []
            for c in d:
                if c[0] == 'any': nd.append(('any',)); continue
                if c[0] == 'pt':
                    t = c[1]
                    if self.invariant_since(t, mark): nd.append(('pt', t)); continue
                    ok = False
                    if iv is not None and t.sort() == IntSort():
                        a = simplify(t - iv)
                        if self.invariant_since(a, mark) and main[2] in (1, -1):
                            s0 = main[1]
                            if main[2] == 1:
                                nd.append(('rng', simplify(a + s0), (lambda cur, a=a: simplify(a + cur))))
                            else:
                                nd.append(('rng', (lambda cur, a=a: simplify(a + cur + 1)), simplify(a + s0 + 1)))
                            ok = True
                        else:
                            for mul in (2, 4, 3, 8, 16):
                                a = simplify(t - mul * iv)
                                if self.invariant_since(a, mark) and main[2] == 1:
                                    nd.append(('rng', simplify(a + mul * main[1]), (lambda cur, a=a, mul=mul: simplify(a + mul * (cur - 1) + 1)))); ok = True; break
                    if not ok: nd.append(('any',))
                else:
                    if self.invariant_since(c[1], mark) and self.invariant_since(c[2], mark): nd.append(c)
                    else: nd.append(('any',))
            k = str([(c[0],) + tuple((x.get_id() if isinstance(x, ExprRef) else simplify(x(iv)).get_id()) for x in c[1:]) for c in nd])
            if k not in keys:
                keys.add(k); res.append(tuple(nd))
        if any(all(c[0] == 'any' for c in d) for d in res): return None
        return res
    def havoc_ptr_leaf(self, k, r, m, mb, m0):
        # collect statically known shapes of stored pointers
        vals = []; st = [m]; seen = set()
        while st:
            x = st.pop()
            if x is mb or x.id in seen: continue
            seen.add(x.id)
            if isinstance(x, Store): vals.append(x.val); st.append(x.prev)
            elif isinstance(x, Mix): st += [x.a, x.b]
            elif isinstance(x, Where): 
                if hasattr(x.a, 'shape'): vals.append(x.a.shape)
                st.append(x.b)
            elif hasattr(x, 'shape'): vals.append(x.shape)
        nd = len(r.extra.get('shape', ())) + r.dims + sum(1 for x in k[1] if x == '*')
        flat = []
        for v in vals:
            if isinstance(v, PtrAlt): flat += [x for _, x in v.alts]
            else: flat.append(v)
        flat = [v for v in flat if v is not UNDEFP]
        if flat and all(isinstance(v, Handle) or v is NULL for v in flat):
            f = self.fresh_fn('hnd_' + r.name, *([self.isort()] * nd), IntSort())
            b = Base(lambda *i: Handle(f(*i), next((v.kind for v in flat if isinstance(v, Handle)), '')), 'h'); b.shape = flat[0]; b.fn_decl = f
            return b
        rs = {v.r.id for v in flat if isinstance(v, Ptr)}
        if flat and len(rs) == 1 and all(isinstance(v, Ptr) and not v.path for v in flat):
            R = flat[0].r; n = len(flat[0].idx)
            fs = []
            for d in range(n):
                if all(is_num(v.idx[d]) and v.idx[d].as_long() == flat[0].idx[d].as_long() for v in flat if True and is_num(flat[0].idx[d])) and is_num(flat[0].idx[d]):
                    fs.append(flat[0].idx[d])
                else: fs.append(self.fresh_fn('pi_' + r.name, *([self.isort()] * nd), self.isort()))
            b = Base(lambda *i: Ptr(R, tuple(f if isinstance(f, ExprRef) else f(*i) for f in fs)), 'p'); b.shape = flat[0]
            return b
        raise Unsupported('pointer leaf of %s modified in loop with mixed shapes %r' % (r.name, flat))
    def havoc_ghost(self, g, v0):
        f = v0.fn_decl_factory(self) if hasattr(v0, 'fn_decl_factory') else None
        if f is None: raise Unsupported('ghost memory havoc %s' % (g,))
        return f

    # ------------------------------------------------------------ instructions
    def instr(self, fr, i, st):
        env = fr['env']; op = i.op
        if op == 'bin':
            env[i.res] = self.binop(i.a['op'], self.val(env, i.a['a'], i.ty), self.val(env, i.a['b'], i.ty), i.ty, st)
        elif op == 'icmp':
            env[i.res] = self.icmp(i.a['p'], self.val(env, i.a['a'], i.ty), self.val(env, i.a['b'], i.ty), i.ty, st)
        elif op == 'cast':
            env[i.res] = self.cast(i.a['op'], self.val(env, i.a['a'], i.a['from']), i.a['from'], i.ty)
        elif op == 'load':
            env[i.res] = self.load(st, self.val(env, i.a['p'], ('ptr',)), i.ty)
        elif op == 'store':
            self.store(st, self.val(env, i.a['p'], ('ptr',)), i.ty, self.val(env, i.a['v'], i.ty))
        elif op == 'alloca':
            r = self.site(fr, i)
            if r is None:
                ty = i.ty
                if ty[0] == 'arr' and not (ty[2][0] == 'arr'):
                    r = Region('loc', ty[2], self.ival(ty[1]), 'alloca')
                else:
                    r = Region('loc', ty, self.ival(1), 'alloca')
                r.name = 'loc_%s' % (i.res,)
                self.newsite(fr, i, r)
            env[i.res] = Ptr(r, (self.zero(),))
        elif op == 'gep':
            b = self.val(env, i.a['b'], ('ptr',))
            env[i.res] = self.gep(b, i.ty, [self.to_index(self.val(env, v, t), t) for t, v in i.a['idx']])
        elif op == 'select':
            c = self.val(env, i.a['c'], ('i', 1)); a = self.val(env, i.a['a'], i.ty); b = self.val(env, i.a['b'], i.ty)
            env[i.res] = ite(simplify(c), a, b)
        elif op in ('call', 'invoke'):
            self.call(fr, i, st)
        elif op == 'extractelement':
            v = self.val(env, i.a['v'], i.ty); k = self.val(env, i.a['i'], ('i', 64))
            e = self.bits(i.ty[2])
            if not is_num(k): raise Unsupported('symbolic lane')
            k = k.as_long()
            env[i.res] = self.from_bv(Extract(e * k + e - 1, e * k, v), ('i', e))
        elif op == 'insertelement':
            n, e = i.ty[1], self.bits(i.ty[2])
            v = BitVecVal(0, n * e) if i.a['v'][0] == 'undef' else self.val(env, i.a['v'], i.ty)
            x = self.to_bv(self.val(env, i.a['e'], i.ty[2]), e)
            k = self.val(env, i.a['i'], ('i', 64)).as_long()
            ls = [Extract(e * j + e - 1, e * j, v) if j != k else x for j in range(n)]
            env[i.res] = Concat(*reversed(ls)) if n > 1 else x
        elif op == 'shufflevector':
            n, e = i.ty[1], self.bits(i.ty[2])
            a = self.val(env, i.a['a'], i.ty); b = self.val(env, i.a['b'], i.ty)
            def lane(j):
                return Extract(e * j + e - 1, e * j, a) if j < n else Extract(e * (j - n) + e - 1, e * (j - n), b)
            if i.a['m'][0] == 'zero': idx = [0] * i.a['mt'][1]
            else: idx = [x[1] if x[0] == 'int' else 0 for x in i.a['m'][1]]
            ls = [lane(j) for j in idx]
            env[i.res] = Concat(*reversed(ls)) if len(ls) > 1 else ls[0]
        elif op == 'extractvalue':
            v = self.val(env, i.a['v'], i.ty)
            for k in i.a['ix']: v = v[k]
            env[i.res] = v
        elif op == 'insertvalue':
            raise Unsupported('insertvalue')
        elif op == 'freeze':
            env[i.res] = self.val(env, i.a['a'], i.ty)
        elif op == 'asm':
            self.note('inline assembly (time-stamp reads) returns an arbitrary value')
            if i.res is not None: env[i.res] = self.havoc_val(i.ty, 'asm')
        elif op == 'other':
            if i.res is not None and i.ty is not None: env[i.res] = self.havoc_val(i.ty, 'oth')
            elif i.res is not None: raise Unsupported(i.line)
        else:
            raise Unsupported('instruction ' + i.line)

    def site(self, fr, i):
        return self.sites.get((fr['id'], id(i)))
    def newsite(self, fr, i, r):
        self.sites[(fr['id'], id(i))] = r
        self.keep.append(i)

    # ------------------------------------------------------------ calls
    def call(self, fr, i, st):
        env = fr['env']
        f = i.a['f']
        if f[0] != 'glob': raise Unsupported('indirect call ' + i.line)
        name = f[1]
        args = [self.val(env, v, t) if t[0] != 'metadata' else None for t, v, at in i.a['args']]
        tys = [t for t, v, at in i.a['args']]; ats = [at for t, v, at in i.a['args']]
        r = self.intrinsic(fr, i, name, args, tys, ats, st)
        if r is not NotImplemented:
            if i.res is not None: env[i.res] = r
            return
        c = self.contracts.lookup(name)
        if c is not None and c.handles(self):
            self.used_contracts.add(c.name)
            self.calls_seen.append((c.name, args))
            self.cur_fr = fr
            r = c.apply(self, st, args, tys, ats, i)
            if i.res is not None: env[i.res] = r
            return
        fn = self.mod.func(name) if not (getattr(self.contracts, 'opaque_lib', False) and self.contracts.noeffect(name)) else None
        if fn is not None:
            if name in self.inv_stack: raise Unsupported('recursive call to %s without contract' % name)
            # byval: private copies
            for k, at in enumerate(ats):
                if 'byval' in at: args[k] = self.copy_val(st, args[k], at['byval'])
            self.trace.append(name)
            ret, s2 = self.run(fn, args, st)
            self.trace.pop()
            if s2 is None:
                st.gh['__dead'] = BoolVal(True); st.pc = st.pc + (BoolVal(False),)
                if i.res is not None: env[i.res] = self.havoc_val(i.ty)
                return
            st.pc = s2.pc; st.mem = s2.mem; st.gh = s2.gh; st.facts = s2.facts
            if i.res is not None: env[i.res] = ret
            return
        r = self.contracts.external(self, st, name, args, tys, i)
        if r is NotImplemented:
            raise Unsupported('call to %s: no contract and no body' % name)
        if i.res is not None: env[i.res] = r

    def copy_val(self, st, p, ty):
        r = Region('byval', ty, self.ival(1), 'alloca')
        q = Ptr(r, (self.zero(),))
        self.copy(st, q, p, ty)
        return q
    def copy(self, st, d, s, ty):
        """structural copy of one object of type ty"""
        if self.is_struct(ty):
            for k, t in enumerate(self.fields(ty)):
                self.copy(st, self.field(d, ty, k), self.field(s, ty, k), t)
        elif ty[0] == 'arr':
            for k in range(ty[1]):
                self.copy(st, self.gep(d, ty, [self.zero(), self.ival(k)]), self.gep(s, ty, [self.zero(), self.ival(k)]), ty[2])
        else:
            try:
                self.store(st, d, ty, self.load(st, s, ty))
            except Unsupported:
                raise
    def field(self, p, ty, k):
        return self.gep(p, ty, [self.zero(), self.ival(k)])

    def alloc(self, fr, i, st, nbytes, kind='heap'):
        r = self.site(fr, i)
        if r is None:
            r = Region('heap%d' % (next(self.counter)), None, None, kind, nbytes=nbytes)
            if self.cutdepth > 0: r.dims = 2
            self.newsite(fr, i, r)
        else:
            r.nbytes = nbytes
            if r.ety is not None and r.dims == 1: r.length = self.div_const(nbytes, self.sizeof(r.ety))
        if r.dims == 2:
            inst = self.gget(st, 'hp')
            self.gset(st, 'hp', inst + 1)
            return Ptr(r, (inst, self.zero()))
        return Ptr(r, (self.zero(),))

    def intrinsic(self, fr, i, name, args, tys, ats, st):
        if name.startswith('llvm.'):
            if name.startswith(('llvm.lifetime', 'llvm.dbg', 'llvm.experimental.noalias', 'llvm.assume', 'llvm.stack', 'llvm.va_')): return None
            if name.startswith(('llvm.memcpy', 'llvm.memmove')):
                self.memcpy(st, args[0], args[1], args[2]); return None
            if name.startswith('llvm.memset'):
                self.memset(st, args[0], args[1], args[2]); return None
            if name.startswith('llvm.umul.with.overflow'):
                return [self.binop('mul', args[0], args[1], tys[0], st), BoolVal(False)]
            if name.startswith('llvm.uadd.with.overflow'):
                return [self.binop('add', args[0], args[1], tys[0], st), BoolVal(False)]
            if name.startswith(('llvm.umin', 'llvm.smin', 'llvm.umax', 'llvm.smax')):
                c = self.icmp(('ult' if '.u' in name else 'slt'), args[0], args[1], tys[0], st)
                return ite(c, args[0], args[1]) if 'min' in name else ite(c, args[1], args[0])
            if name.startswith('llvm.abs') and self.mode == 'int':
                return If(args[0] < 0, -args[0], args[0])
            if name.startswith('llvm.expect'): return args[0]
            if name.startswith('llvm.trap'):
                return None
            if name.startswith('llvm.x86.aesni'):
                B = BitVecSort(128)
                if name.endswith('aeskeygenassist'):
                    return Function('aeskeygenassist', B, IntSort(), B)(args[0], IntVal(args[1].as_long() & 255))
                if name.endswith(('aesenc', 'aesenclast', 'aesdec', 'aesdeclast')):
                    return Function(name.split('.')[-1], B, B, B)(args[0], args[1])
                if name.endswith('aesimc'): return Function('aesimc', B, B)(args[0])
            if name.endswith('pmovmskb.128'):
                v = args[0]
                b = Concat(*([BitVecVal(0, 16)] + [Extract(8 * j + 7, 8 * j + 7, v) for j in range(15, -1, -1)]))
                return b if self.mode == 'bv' else BV2Int(b)
            if name.endswith('sse2.movmsk.pd') or name.endswith('sse41.ptestz') or name.endswith('sse41.ptestc'):
                v = args[0]
                if name.endswith('ptestz'): c = (v & args[1]) == 0
                elif name.endswith('ptestc'): c = (~v & args[1]) == 0
                else: raise Unsupported('intrinsic ' + name)
                return If(c, BitVecVal(1, 32), BitVecVal(0, 32)) if self.mode == 'bv' else If(c, IntVal(1), IntVal(0))
            if name == 'llvm.x86.ssse3.pshuf.b.128' and is_bv(args[0]) and is_bv(args[1]):
                src, mk = args; out = []
                for k in range(16):
                    c = Extract(8 * k + 7, 8 * k, mk); sel = simplify(Extract(3, 0, c))
                    b = Extract(7, 0, LShR(src, Concat(BitVecVal(0, 121), sel, BitVecVal(0, 3)))) if not is_bv_value(sel) else Extract(8 * sel.as_long() + 7, 8 * sel.as_long(), src)
                    out.append(simplify(If(Extract(7, 7, c) == 1, BitVecVal(0, 8), b)))
                return Concat(*reversed(out))
            raise Unsupported('intrinsic ' + name)
        if name in ('_Znam', '_Znwm', 'malloc', '_ZnamRKSt9nothrow_t'):
            return self.alloc(fr, i, st, args[0])
        if name in ('_ZdaPv', '_ZdlPv', 'free', '_ZdlPvm', '_ZdaPvm'):
            return None
        return NotImplemented

    def memcpy(self, st, d, s, n):
        if d is PADP or s is PADP: return
        if isinstance(d, PtrAlt) or isinstance(s, PtrAlt):
            if isinstance(s, PtrAlt) and isinstance(d, Ptr):
                pass
            else: raise Unsupported('memcpy via alternatives')
        if isinstance(d, GlobP): d = self.globptr(d)
        if isinstance(s, GlobP): s = self.globptr(s)
        if not is_num(n): raise Unsupported('memcpy of symbolic size')
        n = n.as_long()
        if n == 0: return
        # choose the object type from source or destination
        for q in (s, d):
            if isinstance(q, PtrAlt): continue
            if not isinstance(q, Ptr): raise Unsupported('memcpy %r' % (q,))
        def typ(q):
            if isinstance(q, PtrAlt): return None
            if q.r.ety is None: return None
            t = self.ptype(q)
            while self.sizeof(t) > n and (self.is_struct(t) or t[0] == 'arr'):
                t = self.fields(t)[0] if self.is_struct(t) else t[2]
            return t
        t = typ(s) or typ(d)
        if t is None: raise Unsupported('memcpy between untyped regions')
        sz = self.sizeof(t)
        if n % sz: 
            t = typ(d); sz = self.sizeof(t)
            if n % sz: raise Unsupported('memcpy partial object')
        if n // sz > 64: raise Unsupported('large memcpy')
        if isinstance(s, Ptr): s = self.descend(s, t)
        d = self.descend(d, t)
        for k in range(n // sz):
            self.copy(st, self.gep(d, t, [self.ival(k)]) if k else d, self.gep(s, t, [self.ival(k)]) if k else s, t)
    def memset(self, st, d, v, n):
        if isinstance(d, GlobP): d = self.globptr(d)
        if not isinstance(d, Ptr): raise Unsupported('memset')
        if d.r.ety is None and not is_num(n): self.set_type(d.r, ('i', 8))
        if not is_num(n) or not is_num(v) or v.as_long() != 0:
            d = self.descend(d, ('i', 8))
            if self.ptype(d) != ('i', 8): raise Unsupported('memset symbolic')
            lp, ix = self.leaf(d); o = ix[-1]
            if self.bounds and d.r.length is not None and not d.r.extra.get('shape'):
                L = d.r.length
                self.oblige(st, 'bounds', 'memset of %s in bounds' % d.r.name, Implies(n > 0, And(o >= 0, o + n <= L)) if self.mode == 'int' else And(ULE(o, L), ULE(n, L - o)))
            ge = (lambda a, b: a >= b) if self.mode == 'int' else (lambda a, b: UGE(a, b))
            old = self.getmem(st, d.r, lp, ('i', 8))
            w = Where(lambda *i: conj([a == b for a, b in zip(i[:-1], ix[:-1])] + [ge(i[-1], o), Not(ge(i[-1], o + n))]), Base(lambda *i: v), old)
            w.desc = [tuple(('pt', x) for x in ix[:-1]) + (('rng', o, simplify(o + n)),)]
            self.setmem(st, d.r, lp, ('i', 8), w); return
        n = n.as_long()
        if d.r.ety is None: self.set_type(d.r, ('i', 8))
        t = self.ptype(d)
        while self.sizeof(t) > n: 
            d = Ptr(d.r, d.idx, d.path + ((('f', 0),) if self.is_struct(t) else (('a', self.zero()),))); t = self.ptype(d)
        sz = self.sizeof(t)
        if n % sz or n // sz > 64: raise Unsupported('memset size')
        for k in range(n // sz): self.zero_obj(st, self.gep(d, t, [self.ival(k)]) if k else d, t)
    def zero_obj(self, st, d, t):
        if self.is_struct(t):
            for k, f in enumerate(self.fields(t)): self.zero_obj(st, self.field(d, t, k), f)
        elif t[0] == 'arr':
            for k in range(t[1]): self.zero_obj(st, self.gep(d, t, [self.zero(), self.ival(k)]), t[2])
        elif t[0] == 'ptr': self.store(st, d, t, NULL)
        elif t[0] == 'vec': self.store(st, d, t, BitVecVal(0, self.bits(t)))
        else: self.store(st, d, t, self.iconst(t, 0))
