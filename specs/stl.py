"""std::string and std::vector objects as ghost contents of the object itself: contracts of their methods, keyed by mangled name.
Two models of a string: CharModel (length and characters) and TextModel (an abstract text, for concatenation of numerals)."""
from chan import *
from chan import Keep
SP = '_ZNSt7__cxx1112basic_stringIcSt11char_traitsIcESaIcEE'; SPK = '_ZNKSt7__cxx1112basic_stringIcSt11char_traitsIcESaIcEE'
LEN = Virt.make('$len', I(64)); POS = Virt.make('$pos', ('arr', None, I(64))); CH = Virt.make('$ch', ('arr', None, I(8))); TX = Virt.make('$text', I(64))

def parse_str(n):
    """mangled std::string operation -> (operation, argument kinds) or None"""
    m = re.match(r'_ZNK?St7__cxx1112basic_stringIcSt11char_traitsIcESaIcEE(.*)$', n)
    if m:
        t = m.group(1)
        for pat, op in ((r'C[12]Ev$', ('ctor0',)), (r'C[12]ERKS4_$', ('ctors',)), (r'C[12]EOS4_$', ('ctors', 'move')), (r'C[12](IS3_)?EPKcRKS3_$', ('ctorc',)), (r'C[12](IS3_)?EmcRKS3_$', ('ctorn',)), (r'C[12]ERKS4_mm$', ('ctorsub',)), (r'D[12]Ev$', ('nop',)),
                        (r'aSEPKc$', ('setc',)), (r'aSERKS4_$', ('sets',)), (r'aSEOS4_$', ('sets', 'move')), (r'aSEc$', ('setch',)), (r'6assignEPKc$', ('setc',)), (r'6assignERKS4_$', ('sets',)), (r'6assignEOS4_$', ('sets', 'move')), (r'6assignEmc$', ('setn',)),
                        (r'(pLE|6appendE)PKc$', ('addc',)), (r'(pLE|6appendE)RKS4_$', ('adds',)), (r'(pLEc|9push_backEc)$', ('addch',)), (r'6appendEmc$', ('addn',)),
                        (r'5clearEv$', ('clear',)), (r'(6length|4size)Ev$', ('len',)), (r'5emptyEv$', ('empty',)), (r'ixEm$', ('at',)), (r'2atEm$', ('at!',)), (r'5frontEv$', ('front',)), (r'4backEv$', ('back',)),
                        (r'6substrEmm$', ('substr',)), (r'6insertEmmc$', ('insertn',)), (r'6insertEmPKc$', ('insertc',)), (r'6insertEmRKS4_$', ('inserts',)), (r'7reserveEm$', ('nop',)), (r'7reserveEv$', ('nop',)), (r'6resizeEmc$', ('resize',)), (r'5eraseEmm$', ('erase',)), (r'8pop_backEv$', ('pop',)), (r'(5c_str|4data)Ev$', ('cstr',))):
            if re.match(pat, t): return op
        return ('?', n)
    m = re.match(r'_ZStplIcSt11char_traitsIcESaIcEENSt7__cxx1112basic_stringIT_T0_T1_EE(.*)$', n)
    if m:
        t = m.group(1)
        k = {'S': r'(OS8_|RKS8_|SA_|S9_)', 'C': r'(PKS5_|PKS6_)', 'H': r'S5_'}
        if re.match(r'(RKS8_SA_|OS8_S9_|OS8_RKS8_|RKS8_OS8_)$', t): return ('plus', 's', 's')
        if re.match(r'(RKS8_PKS5_|OS8_PKS5_)$', t): return ('plus', 's', 'c')
        if re.match(r'PKS5_(RKS8_|OS8_)$', t): return ('plus', 'c', 's')
        if re.match(r'(RKS8_S5_|OS8_S5_)$', t): return ('plus', 's', 'h')
        if re.match(r'S5_(RKS8_|OS8_)$', t): return ('plus', 'h', 's')
        return ('?', n)
    if re.match(r'_ZSteqIcSt11char_traitsIcESaIcEEbRKNSt7__cxx1112basic_stringIT_T0_T1_EEPKS5_$', n): return ('eq', 's', 'c')
    if re.match(r'_ZSteqIcSt11char_traitsIcESaIcEEbRKNSt7__cxx1112basic_stringIT_T0_T1_EESA_$', n): return ('eq', 's', 's')
    if re.match(r'_ZSteqI(c|cSt11char_traits).*basic_string', n): return ('eq', 's', 's')
    if re.match(r'_ZStneIcSt11char_traitsIcESaIcEEbRKNSt7__cxx1112basic_stringIT_T0_T1_EEPKS5_$', n): return ('ne', 's', 'c')
    return None
def one(p):
    if isinstance(p, PtrAlt):
        a = [x for c, x in p.alts if x is not UNDEFP and x is not NULL]
        if len(a) == 1: p = a[0]
    return p
def into(ex, p):
    """a pointer to an object is a pointer to its first field"""
    while isinstance(p, Ptr) and p.r.ety is not None:
        t = ex.ptype(p)
        if t[0] == 'named' and (t[1].startswith('struct.std::pair') or not t[1].startswith(('class.std::', 'struct.std::'))): p = Ptr(p.r, p.idx, p.path + (('f', 0),))
        elif t[0] == 'arr' and p.path and p.path[-1][0] == 'f' and t[2][0] != 'i': p = Ptr(p.r, p.idx, p.path + (('a', ex.zero()),))
        else: break
    return p
def cell(p, v, *rest): return Ptr(p.r, p.idx, p.path + (('f', v),) + tuple(rest))
def ult(ex, a, b): return a < b if ex.mode == 'int' else ULT(a, b)
def ule(ex, a, b): return a <= b if ex.mode == 'int' else ULE(a, b)
def literal(ex, p):
    """bytes of a C string literal"""
    if not isinstance(p, GlobP): raise Unsupported('C string %r' % (p,))
    q = ex.globptr(p); f = q.r.extra.get('const')
    if f is None: raise Unsupported('C string %r' % (p,))
    out = []; n = q.r.length.as_long()
    for k in range(n):
        c = simplify(f(())(ex.ival(k))).as_long() & 255
        if c == 0: break
        out.append(c)
    return out
def setwhole(ex, st, p, v, ty, fn, lo=None):
    """replace the contents leaf v of the object p: element i becomes fn(i)"""
    lp, ix = ex.leaf(cell(p, v)); lp = lp + ('*',)
    old = ex.getmem(st, p.r, lp, ty)
    w = Where(lambda *i: conj([a == b for a, b in zip(i[:-1], ix)]), Base(lambda *i: fn(i[-1])), old)
    w.desc = [tuple(('pt', x) for x in ix) + (('any',),)]
    ex.setmem(st, p.r, lp, ty, w)
class CharModel:
    def __init__(self, ex): self.ex = ex
    def ch(self, c): return self.ex.iconst(I(8), c)
    def lit(self, bs):
        ex = self.ex
        def f(i):
            r = self.ch(bs[-1])
            for k in range(len(bs) - 2, -1, -1): r = If(i == k, self.ch(bs[k]), r)
            return r
        return (ex.ival(len(bs)), f if bs else (lambda i: self.ch(0)))
    def get(self, st, p):
        p = one(p)
        if not isinstance(p, Ptr): raise Unsupported('string %r' % (p,))
        ex = self.ex; l = ex.load(st, cell(p, LEN), I(64))
        if ex.mode == 'int': ex.nn(l); ex.axiom(st, l >= 0)
        lp, ix = ex.leaf(cell(p, CH)); m = ex.getmem(st, p.r, lp + ('*',), I(8))
        return (l, lambda i: m.read(ix + (i,)))
    def set(self, st, p, v):
        p = one(p)
        if not isinstance(p, Ptr): raise Unsupported('string %r' % (p,))
        self.ex.store(st, cell(p, LEN), I(64), self.ex.simp(v[0])); setwhole(self.ex, st, p, CH, I(8), v[1])
    def forget(self, st, p):
        f = self.ex.fresh_fn('moved', self.ex.isort(), self.ex.sort_of(I(8))); self.set(st, p, (self.ex.fresh('moved_len', self.ex.isort()), lambda i: f(i)))
    def cat(self, a, b): return (self.ex.simp(a[0] + b[0]), lambda i: ite(simplify(ult(self.ex, i, a[0])), a[1](i), b[1](self.ex.simp(i - a[0]))))
    def fill(self, n, c): return (n, lambda i: c)
    def char(self, c): return (self.ex.ival(1), lambda i: c)
    def at(self, st, p, i):
        p = one(p); l, f = self.get(st, p); ex = self.ex
        ex.oblige(st, 'bounds', 'string index in bounds', And(i >= 0, i < l) if ex.mode == 'int' else ULT(i, l))
        return cell(p, CH, ('a', i))
    def sub(self, st, v, pos, n):
        ex = self.ex
        ex.oblige(st, 'call', 'substr position within the string', ule(ex, pos, v[0]))
        left = v[0] - pos
        return (ex.simp(If(ult(ex, n, left), n, left) if not (is_num(n) and n.as_signed_long() < 0 if is_bv(n) else is_num(n) and n.as_long() < 0) else left), lambda i: v[1](ex.simp(i + pos)))
    def erase(self, st, v, pos, n):
        ex = self.ex; cnt = self.sub(st, v, pos, n)[0]
        return (ex.simp(v[0] - cnt), lambda i: ite(simplify(ult(ex, i, pos)), v[1](i), v[1](ex.simp(i + cnt))))
    def insert(self, st, v, pos, b):
        ex = self.ex
        ex.oblige(st, 'call', 'insert position within the string', ule(ex, pos, v[0]))
        return (ex.simp(v[0] + b[0]), lambda i: ite(simplify(ult(ex, i, pos)), v[1](i), ite(simplify(ult(ex, i, pos + b[0])), b[1](ex.simp(i - pos)), v[1](ex.simp(i - b[0])))))
    def cstr(self, st, p): return self.lit(literal(self.ex, p))
    def eqlit(self, v, bs): return conj([v[0] == len(bs)] + [v[1](self.ex.ival(k)) == self.ch(c) for k, c in enumerate(bs)])
class TextModel:
    """strings as abstract texts (integers); cat is concatenation, hexof(n) the hexadecimal numeral of number n"""
    cat_ = Function('text_cat', IntSort(), IntSort(), IntSort()); EMPTY = Int('text_empty')
    def __init__(self, ex): self.ex = ex
    @staticmethod
    def lit_(bs): return TextModel.EMPTY if not bs else Int('text_' + '_'.join('%02x' % b for b in bs))
    def lit(self, bs): return self.lit_(bs)
    @staticmethod
    def axioms():
        c, E = TextModel.cat_, TextModel.EMPTY; x, y, z = Ints('tx ty tz')
        return [ForAll([x], c(x, E) == x), ForAll([x], c(E, x) == x), ForAll([x, y, z], c(x, c(y, z)) == c(c(x, y), z), patterns=[c(x, c(y, z))])]
    def get(self, st, p):
        p = one(p)
        if isinstance(p, Handle): raise Unsupported('text of %r' % (p,))
        return self.ex.load(st, cell(p, TX), I(64))
    def set(self, st, p, v):
        p = one(p)
        if not isinstance(p, Ptr): raise Unsupported('string %r' % (p,))
        self.ex.store(st, cell(p, TX), I(64), v)
    def forget(self, st, p):
        if isinstance(one(p), Ptr): self.set(st, p, self.ex.fresh('moved', IntSort()))
    def cat(self, a, b): return self.cat_(a, b)
    def insert(self, st, v, pos, b):
        if not (is_num(pos) and pos.as_long() == 0): raise Unsupported('insertion in the middle of a text')
        return self.cat(b, v)
    def cstr(self, st, p):
        if isinstance(p, Handle) and p.kind == 'cstr': return p.t
        return self.lit(literal(self.ex, p))
    def char(self, c):
        c = simplify(c)
        if not is_num(c): raise Unsupported('text of a variable character')
        return self.lit([c.as_long() & 255])
class StrOp(Contract):
    trusted = True
    def __init__(self, name, op, model): self.name, self.op, self.model = name, op, model
    def apply(self, ex, st, a, tys, ats, ins):
        M = self.model(ex); op = self.op[0]
        if op == '?': raise Unsupported('string operation %s has no contract' % self.name)
        a = [into(ex, one(x)) if isinstance(x, (Ptr, PtrAlt)) else x for x in a]
        b = ex.bounds
        def S(p): return M.get(st, p)
        def C(p): return M.cstr(st, p)
        if op == 'nop': return a[0] if ins.ty[0] == 'ptr' else None
        if op == 'ctor0' or op == 'clear': M.set(st, a[0], M.lit([])); return None
        if op == 'ctors' or op == 'sets':
            M.set(st, a[0], S(a[1]))
            if 'move' in self.op and not (isinstance(a[1], Ptr) and isinstance(a[0], Ptr) and a[1].r is a[0].r): M.forget(st, a[1])
            return a[0]
        if op == 'ctorc' or op == 'setc': M.set(st, a[0], C(a[1])); return a[0]
        if op == 'ctorn' or op == 'setn': M.set(st, a[0], M.fill(a[1], a[2])); return a[0]
        if op == 'ctorsub': M.set(st, a[0], M.sub(st, S(a[1]), a[2], a[3])); return a[0]
        if op == 'setch': M.set(st, a[0], M.char(a[1])); return a[0]
        if op == 'adds': M.set(st, a[0], M.cat(S(a[0]), S(a[1]))); return a[0]
        if op == 'addc': M.set(st, a[0], M.cat(S(a[0]), C(a[1]))); return a[0]
        if op == 'addch': M.set(st, a[0], M.cat(S(a[0]), M.char(a[1]))); return a[0]
        if op == 'addn': M.set(st, a[0], M.cat(S(a[0]), M.fill(a[1], a[2]))); return a[0]
        if op == 'plus':
            f = {'s': S, 'c': C, 'h': M.char}
            M.set(st, a[0], M.cat(f[self.op[1]](a[1]), f[self.op[2]](a[2]))); return None
        if op == 'substr': M.set(st, a[0], M.sub(st, S(a[1]), a[2], a[3])); return None
        if op == 'erase': M.set(st, a[0], M.erase(st, S(a[0]), a[1], a[2])); return a[0]
        if op == 'pop':
            v = S(a[0]); ex.oblige(st, 'bounds', 'pop_back of a string that is not empty', v[0] > 0 if ex.mode == 'int' else v[0] != 0); M.set(st, a[0], (ex.simp(v[0] - 1), v[1])); return None
        if op == 'insertn': M.set(st, a[0], M.insert(st, S(a[0]), a[1], M.fill(a[2], a[3]))); return a[0]
        if op == 'insertc': M.set(st, a[0], M.insert(st, S(a[0]), a[1], C(a[2]))); return a[0]
        if op == 'inserts': M.set(st, a[0], M.insert(st, S(a[0]), a[1], S(a[1 + 1]))); return a[0]
        if op == 'resize':
            v = S(a[0]); n = a[1]; M.set(st, a[0], (n, lambda i: ite(simplify(ult(ex, i, v[0])), v[1](i), a[2]))); return None
        if op == 'len': return S(a[0])[0]
        if op == 'empty': return S(a[0])[0] == 0
        if op in ('at', 'at!'): return M.at(st, a[0], a[1])
        if op == 'front': return M.at(st, a[0], ex.ival(0))
        if op == 'back': return M.at(st, a[0], ex.simp(S(a[0])[0] - 1))
        if op in ('eq', 'ne'):
            if self.op[2] != 'c': raise Unsupported('comparison of two strings')
            r = M.eqlit(S(a[0]), literal(ex, a[1])); return r if op == 'eq' else Not(r)
        if op == 'cstr':
            p = a[0]
            return p if isinstance(p, Handle) else Handle(S(p), 'cstr') if getattr(M, 'cstr_ok', M.__class__ is TextModel) else self.bad()
        raise Unsupported(self.name)
    def bad(self): raise Unsupported('string operation %s has no contract' % self.name)

# ---------------------------------------------------------------- std::vector
VT = {'l': I(64), 'm': I(64), 'i': I(32), 't': I(16), '8ReadGate': S('class.ReadGate'), '4Mark': I(32)}
def parse_vec(n):
    m = re.match(r'_ZNK?St6vectorI(l|m|i|t|\d+[A-Za-z]\w*?)SaI(S\d*_|l|m|i|t)EE(.*)$', n)
    if not m: return None
    e, t = m.group(1), m.group(3)
    if e not in VT:
        return ('opaque', None, n)
    T = VT[e]
    for pat, op in ((r'ixEm$', 'at'), (r'2atEm$', 'at!'), (r'4sizeEv$', 'size'), (r'5emptyEv$', 'empty'), (r'9push_backE(RK|O)[\w]+$', 'push'), (r'5clearEv$', 'clear'), (r'6resizeEm$', 'resize0'), (r'6resizeEmRK\w+$', 'resizev'), (r'6assignEmRK\w+$', 'assignv'), (r'8pop_backEv$', 'pop'), (r'12emplace_backIJ[RO]?K?%sEEE\w+$' % re.escape(e), 'push'),
                    (r'C[12]Ev$', 'ctor0'), (r'C[12]EmRKS\d*_$', 'ctorn'), (r'C[12]EmRK(l|m|i|t)RKS\d*_$', 'ctornv'), (r'C[12]EmRKS\d*_RKS\d*_$', 'ctornv'), (r'D[12]Ev$', 'nop'), (r'7reserveEm$', 'nop'), (r'4backEv$', 'back'), (r'5frontEv$', 'front'), (r'c?5beginEv$', 'begin'), (r'c?3endEv$', 'end'), (r'6cbeginEv$', 'begin'), (r'4cendEv$', 'end')):
        if re.match(pat, t): return (op, T, n)
    return ('?', T, n)
DATA_ = {}
def data(T):
    k = repr(T)
    if k not in DATA_: DATA_[k] = Virt.make('$data', ('arr', None, T))
    return DATA_[k]
def vlen(ex, st, p): 
    l = ex.load(st, cell(one(p), LEN), I(64))
    if ex.mode == 'int': ex.nn(l); ex.axiom(st, l >= 0)
    return l
def vleaves(ex, p, T):
    """(leaf path, index prefix, type) of every scalar leaf of the elements"""
    for q, t in leaves(ex, T):
        lp, ix = ex.leaf(cell(p, data(T)))
        yield lp + ('*',) + tuple(c[1] if c[0] == 'f' else '*' for c in q), ix, t, q
def vget(ex, st, p, T, i, *path):
    """element i (leaf path given as field numbers / array indices)"""
    q = cell(one(p), data(T), ('a', i)); t = T
    for f in path:
        q = Ptr(q.r, q.idx, q.path + (((('f', f)) if ex.is_struct(t) else ('a', f if isinstance(f, ExprRef) else ex.ival(f))),))
        t = ex.fields(t)[f] if ex.is_struct(t) else t[2]
    b = ex.bounds; ex.bounds = False
    r = ex.load(st, q, t); ex.bounds = b
    return r
class VecOp(Contract):
    trusted = True
    def __init__(self, name, op): self.name, self.op = name, op
    def zero(self, t, ex): return BoolVal(False) if t == I(1) else ex.iconst(t, 0)
    def fillfrom(self, ex, st, p, T, lo, val):
        """elements at and above lo become val(leaf type, leaf path)"""
        for lp, ix, t, q in list(vleaves(ex, p, T)):
            old = ex.getmem(st, p.r, lp, t); v = val(t, q); k = len(ix)
            w = Where(lambda *i: conj([a == b for a, b in zip(i[:k], ix)] + [i[k] >= lo]), Base(lambda *i, v=v: v), old)
            w.desc = [tuple(('pt', x) for x in ix) + (('any',),) * (1 + sum(1 for c in q if c[0] == 'a'))]
            ex.setmem(st, p.r, lp, t, w)
    def apply(self, ex, st, a, tys, ats, ins):
        op, T, n = self.op
        if op == 'opaque': return ex.lib_val(ins.ty) if ins.ty[0] == 'ptr' else None if ins.ty == ('void',) else ex.havoc_val(ins.ty, 'vec')
        if op == '?': raise Unsupported('vector operation %s has no contract' % n)
        p = into(ex, one(a[0]))
        if not isinstance(p, Ptr): raise Unsupported('vector %r' % (p,))
        if op == 'nop': return None
        if op in ('ctor0', 'clear'): ex.store(st, cell(p, LEN), I(64), ex.ival(0)); return None
        if op == 'size': return vlen(ex, st, p)
        if op == 'empty': return vlen(ex, st, p) == 0
        if op in ('begin', 'end'): return cell(p, data(T), ('a', ex.ival(0) if op == 'begin' else vlen(ex, st, p)))
        if op in ('at', 'at!', 'front', 'back'):
            l = vlen(ex, st, p); i = a[1] if op[:2] == 'at' else ex.ival(0) if op == 'front' else ex.simp(l - 1)
            ex.oblige(st, 'bounds', 'vector index in bounds', And(i >= 0, i < l))
            return cell(p, data(T), ('a', i))
        if op == 'push':
            l = vlen(ex, st, p); q = cell(p, data(T), ('a', l))
            b = ex.bounds; ex.bounds = False
            for c, t in leaves(ex, T):
                s_ = Ptr(a[1].r, a[1].idx, a[1].path + tuple(('f', x[1]) if x[0] == 'f' else ('a', ex.ival(x[1])) for x in c)); d_ = Ptr(q.r, q.idx, q.path + tuple(('f', x[1]) if x[0] == 'f' else ('a', ex.ival(x[1])) for x in c))
                ex.store(st, d_, t, ex.load(st, s_, t))
            ex.bounds = b
            if getattr(ex.contracts, 'ghost_pos', None) and T == I(64) and 'Il' in n:      # ghost: where a value was put
                ex.bounds = False; ex.store(st, cell(p, POS, ('a', ex.load(st, q, T))), I(64), l); ex.bounds = b
            ex.store(st, cell(p, LEN), I(64), ex.simp(l + 1)); return None
        if op in ('resize0', 'ctorn'):
            lo = vlen(ex, st, p) if op == 'resize0' else ex.ival(0)
            self.fillfrom(ex, st, p, T, lo, lambda t, q: self.zero(t, ex)); ex.store(st, cell(p, LEN), I(64), a[1]); return None
        if op == 'pop':
            l = vlen(ex, st, p); ex.oblige(st, 'bounds', 'pop_back of a vector that is not empty', l > 0); ex.store(st, cell(p, LEN), I(64), ex.simp(l - 1)); return None
        if op in ('resizev', 'ctornv', 'assignv'):
            lo = vlen(ex, st, p) if op == 'resizev' else ex.ival(0)
            def val(t, q):
                if q: raise Unsupported('vector of structs filled with a value')
                return ex.load(st, a[2], t)
            self.fillfrom(ex, st, p, T, lo, val); ex.store(st, cell(p, LEN), I(64), a[1]); return None
        raise Unsupported(n)
class STL(Registry):
    """registry with contracts for every string/vector operation; any other library call that is handed a modelled object is refused"""
    opaque_lib = True
    def __init__(self, model=CharModel): super().__init__(); self.model = model; self.cache = {}
    def lookup(self, m):
        c = super().lookup(m)
        if c is not None: return c
        if m in self.cache: return self.cache[m]
        o = parse_str(m)
        c = StrOp(m, o, self.model) if o else None
        if c is None:
            o = parse_vec(m)
            c = VecOp(m, o) if o else None
        self.cache[m] = c
        return c
    def keep(self, m): return super().lookup(m) is not None
    def external(self, ex, st, name, args, tys, ins):
        for x in args:
            for y in (x.alts if isinstance(x, PtrAlt) else [(None, x)]):
                y = y[1]
                if isinstance(y, Ptr) and y.r.ety is not None and re.match(r"\('named', '(class|struct)\.std::(__cxx11::basic_string|vector)", repr(ex.ptype(y))) and not re.match(r'_ZN(K?St|SaI|St15__new|9__gnu)|_ZStls|_ZNSaI', name):
                    raise Unsupported('library call %s on a modelled object' % name)
        return super().external(ex, st, name, args, tys, ins)
