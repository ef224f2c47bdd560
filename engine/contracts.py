"""Contract objects, registry, trusted externals, and the per-function verification driver."""
import re
from z3 import *
import build, ir
from mem import *
from vc import Exec, State, Unsupported, conj, Obl, neg

VEC = ('vec', 2, ('i', 64))
def I(w): return ('i', w)
PTR = ('ptr',)
def S(n): return ('named', n)

class K:
    """call context handed to pre/post/mods"""
    pass

class Contract:
    name = None
    trusted = False
    params = ()          # parameter names
    def handles(self, ex): return True
    def pre(self, k): return []
    def post(self, k): return []
    def mods(self, k): return []
    def ghosts(self, k): return []
    def ret(self, k):
        t = k.rety
        return k.ex.havoc_val(t, 'ret_' + self.name) if t[0] != 'ptr' else UNDEFP
    def ctx(self, ex, st, args, tys=None, ats=None, ins=None):
        k = K(); k.ex = ex; k.args = args; k.tys = tys; k.ats = ats
        for n, a in zip(self.params, args): setattr(k, n, a)
        k.rety = ins.ty if ins is not None else None
        k.old = st.copy(); k.st = st; k.call = True; k.ins = ins
        def rd(p, ty, *path, st=None, old=False):
            return peek(ex, k.old if old else (st or k.new), p, ty, *path)
        k.rd = rd
        k.new = k.old
        return k
    def apply(self, ex, st, args, tys, ats, ins):
        k = self.ctx(ex, st, args, tys, ats, ins)
        for x in self.pre(k):
            ex.oblige(st, 'pre', 'precondition of %s: %s' % (self.name, x[0]), x[1])
        # effects
        for m in self.mods(k):
            havoc_mod(ex, st, m, self.name)
        for g in self.ghosts(k):
            v = ex.gget(st, g)
            if isinstance(v, ExprRef):
                ex.gset(st, g, ex.fresh('g_' + str(g), v.sort()))
        k.new = st.copy(); k.st = st
        k.result = self.ret(k)
        for x in self.post(k):
            ex.assume(st, x[1])
        self.after(k)
        return k.result
    def after(self, k): pass

def peek(ex, st, p, ty, *path):
    b = ex.bounds; ex.bounds = False
    try:
        t = ty
        for f in path:
            if ex.is_struct(t):
                p = ex.field(p, t, f); t = ex.fields(t)[f]
            else:
                p = ex.gep(p, t, [ex.zero(), f if isinstance(f, ExprRef) else ex.ival(f)]); t = t[2]
        return ex.load(st, p, t)
    finally:
        ex.bounds = b

def at(ex, p, ty, i):
    """p + i elements of ty"""
    return ex.gep(p, ty, [i if isinstance(i, ExprRef) else ex.ival(i)])

def leaves(ex, ty):
    if ex.is_struct(ty):
        for k, f in enumerate(ex.fields(ty)):
            for q, t in leaves(ex, f): yield (('f', k),) + q, t
    elif ty[0] == 'arr':
        for k in range(ty[1]):
            for q, t in leaves(ex, ty[2]): yield (('a', k),) + q, t
    else:
        yield (), ty

def havoc_mod(ex, st, m, who):
    b = ex.bounds; ex.bounds = False
    try:
        if m[0] == 'cell':
            _, p, ty = m
            for q, t in leaves(ex, ty):
                pp = p
                tt = ty
                for c in q:
                    pp = ex.gep(pp, tt, [ex.zero(), ex.ival(c[1])])
                    tt = ex.fields(tt)[c[1]] if c[0] == 'f' else tt[2]
                if t[0] == 'ptr': continue
                ex.store(st, pp, t, ex.fresh('m_' + who, ex.sort_of(t)))
        elif m[0] == 'range':
            _, p, ty, lo, hi = m     # elements lo..hi-1 starting at p
            if isinstance(p, GlobP): p = ex.globptr(p)
            p = ex.descend(p, ty)
            for q, t in leaves(ex, ty):
                pp = Ptr(p.r, p.idx, p.path + tuple(('f', c[1]) if c[0] == 'f' else ('a', ex.ival(c[1])) for c in q))
                lp, ix = ex.leaf(pp)
                old = ex.getmem(st, pp.r, lp, t)
                f = ex.fresh_fn('m_' + who, *([ex.isort()] * len(ix)), ex.sort_of(t))
                new = Base(lambda *i, f=f: f(*i))
                # position of the element index inside ix
                shape = p.r.extra.get('shape')
                if shape: raise Unsupported('range havoc over shaped region')
                pos = p.r.dims - 1 if not (p.path and p.path[-1][0] == 'a') else len(ix) - 1 - sum(1 for c in q if c[0] == 'a')
                base = ix[pos]
                d = tuple(('rng', base + lo, base + hi) if j == pos else ('pt', x) for j, x in enumerate(ix))
                def pred(*xs, d=d):
                    cs = []
                    for c, x in zip(d, xs):
                        if c[0] == 'pt': cs.append(x == c[1])
                        elif ex.mode == 'int': cs.append(And(x >= c[1], x < c[2]))
                        else: cs.append(And(UGE(x, c[1]), ULT(x, c[2])))
                    return conj(cs)
                w = Where(pred, new, old); w.desc = [d]
                ex.setmem(st, pp.r, lp, t, w)
        elif m[0] == 'leaf':
            _, r, lp, ty = m
            old = ex.getmem(st, r, lp, ty)
            nd = len(r.extra.get('shape', ())) + r.dims + sum(1 for x in lp if x == '*')
            f = ex.fresh_fn('m_' + who, *([ex.isort()] * nd), ex.sort_of(ty))
            ex.setmem(st, r, lp, ty, Base(lambda *i, f=f: f(*i)))
        else:
            raise Unsupported('mod ' + str(m))
    finally:
        ex.bounds = b

def mod_allows(ex, m, key, ix):
    """z3 condition: cell ix of leaf `key` may be changed by m"""
    rid, lp = key
    if m[0] == 'cell':
        _, p, ty = m
        alts = []
        for q, t in leaves(ex, ty):
            pp = p; tt = ty
            for c in q:
                pp = ex.gep(pp, tt, [ex.zero(), ex.ival(c[1])])
                tt = ex.fields(tt)[c[1]] if c[0] == 'f' else tt[2]
            pp = ex.descend(pp, t)
            if not isinstance(pp, Ptr) or pp.r.id != rid: continue
            l2, i2 = ex.leaf(pp)
            if l2 != lp: continue
            alts.append(conj([a == b for a, b in zip(ix, i2)]))
        return Or(*alts) if alts else BoolVal(False)
    if m[0] == 'range':
        _, p, ty, lo, hi = m
        p = ex.descend(p, ty)
        if p.r.id != rid: return BoolVal(False)
        j = ix[p.r.dims - 1] - p.idx[-1]
        if p.r.extra.get('shape'): raise Unsupported('range frame')
        return And(j >= lo, j < hi) if ex.mode == 'int' else And(UGE(j, lo), ULT(j, hi))
    if m[0] == 'leaf':
        return BoolVal(m[1].id == rid and m[2] == lp)
    if m[0] == 'region':
        return BoolVal(m[1].id == rid)
    return BoolVal(False)

# functions without effect on the modelled state
NOEFFECT = re.compile(r'^(_ZN5boost|_ZNK5boost|_ZN9__gnu_cxx|_ZNSo|_ZNSi|_ZStls|_ZNKSt|_ZNSt|_ZSt|_ZNSs|_ZNSa|_ZN12VerifNullLog|_ZNK12VerifNullLog|_ZNSolsE|__clang_call_terminate|__cxa_|_ZSt9terminate)')

class Registry:
    def __init__(self):
        self.by = {}
        self.ext = {}
    def add(self, *cs):
        for c in cs: self.by[c.name] = c
        return self
    def lookup(self, mangled):
        if mangled in self.by: return self.by[mangled]
        return self.by.get(build.base_name(mangled))
    def keep(self, mangled):
        return self.lookup(mangled) is not None
    opaque_lib = False     # treat library functions with a body as opaque, too
    def noeffect(self, name): return bool(NOEFFECT.match(name))
    def external(self, ex, st, name, args, tys, ins):
        b = build.base_name(name)
        if NOEFFECT.match(name):
            ex.note('C++ standard library calls without a contract (%s) do not touch the modelled state' % 'logging, string formatting')
            return ex.lib_val(ins.ty) if ins.ty[0] == 'ptr' and ex.mode == 'int' else ex.havoc_val(ins.ty, 'std')
        return NotImplemented

def new_exec(mod, reg, mode='int', **opts):
    ex = Exec(mod, reg, mode, opts)
    ex.regions = {}; ex.globs = {}; ex.atoms = {}; ex.atom_key = {}
    ex.ghost_init = {'hp': Int('hp0')} if mode == 'int' else {'hp': BitVec('hp0', 64)}
    ex.ghost_mono = {'hp'}
    ex.trivial = 0
    return ex

def find_fn(mod, name):
    """module function by plain name"""
    for n in mod._raw:
        if n == name or build.base_name(n) == name: return mod.func(n)
    return None

class Verified:
    """result of generating obligations for one function / harness"""
    def __init__(self, name, ex, covers):
        self.name = name; self.ex = ex; self.obls = ex.obls; self.covers = covers

def verify(mod, reg, c, mode='int', **opts):
    """generate obligations: body of c.name against contract c"""
    ex = new_exec(mod, reg, mode, **opts)
    fn = find_fn(mod, c.name)
    if fn is None: raise Unsupported('function %s not found in the current source' % c.name)
    ex.top = c.name
    if hasattr(c, 'ghost_init'): ex.ghost_init.update(c.ghost_init(ex)); ex.ghost_mono = set(ex.ghost_mono) | set(getattr(c, 'ghost_mono', ()))
    st = State()
    st.gh = dict(ex.ghost_init)
    args = c.setup(ex, st, fn)
    if len(args) != len(fn.params): raise Unsupported('%s: signature changed' % c.name)
    k = K(); k.ex = ex; k.args = args; k.call = False
    for n, a in zip(c.params, args): setattr(k, n, a)
    k.rety = fn.ret
    k.old = st.copy(); k.new = k.old; k.st = st
    def rd(p, ty, *path, st=None, old=False):
        return peek(ex, k.old if old else (st or k.new), p, ty, *path)
    k.rd = rd
    pre = list(c.pre(k))
    for x in pre: ex.axiom(st, x[1])
    for f in getattr(c, 'axioms', lambda k: [])(k): ex.axiom(st, f)
    k.old = st.copy(); k.new = k.old
    entry_facts = st.facts
    c.k = k
    if hasattr(c, 'loop'):
        ex.loop_spec = lambda L: c.loop(L, k)
    ret, fin = ex.run(fn, args, st)
    if fin is None: raise Unsupported('%s never returns' % c.name)
    k.new = fin; k.result = ret; k.final = True
    if hasattr(c, 'lemmas'):
        for f in c.lemmas(k): ex.axiom(fin, f)
    for x in c.post(k):
        ex.oblige(fin, 'post', 'postcondition: ' + x[0], x[1])
    # frame
    mods = list(c.mods(k))
    for key, m in list(fin.mem.items()):
        r, ty = ex.regions[key]
        if r.kind not in ('param', 'global'): continue
        m0 = r.init[key[1]]
        if m is m0 or ty[0] == 'ptr': 
            continue
        nd = len(r.extra.get('shape', ())) + r.dims + sum(1 for x in key[1] if x == '*')
        ix = tuple(ex.fresh('frm', ex.isort()) for _ in range(nd))
        old = m0.read(ix); new = m.read(ix)
        if old.eq(new): continue
        b = ex.bounds; ex.bounds = False
        allowed = [mod_allows(ex, mm, key, ix) for mm in mods]
        ex.bounds = b
        ex.oblige(fin, 'frame', 'frame: only declared cells of %s change' % r.name, Or(new == old, *allowed))
    # vacuity: precondition satisfiable, exit reachable
    covers = [('precondition satisfiable', [f for f in entry_facts.all()], []),
              ('normal return reachable', fin.facts.all(), list(fin.pc))]
    for x in getattr(c, 'covers', lambda k: [])(k):
        covers.append((x[0], fin.facts.all(), list(fin.pc) + [x[1]]))
    return Verified(c.name, ex, covers)
