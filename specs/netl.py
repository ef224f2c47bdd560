"""C15: from names to wire numbers. std::map<string,int64_t> is a ghost table on texts (present?, value); IdAssignment and AddWireArray are verified against the netlist's own naming of wires."""
from sched import *
RCS = S('class.ReadCircuitString'); RGS = S('class.ReadGateString')
HAS = Virt.make('$has', ('arr', None, I(1))); VAL = Virt.make('$val', ('arr', None, I(64)))
dec = Function('text_dec', IntSort(), IntSort())
D = Function('wire_called', IntSort(), IntSort()); KN = Function('called_after', IntSort(), IntSort(), BoolSort()); UNRES = Bool('a_name_is_unresolved')
def plain(t):
    """a term z3 accepts as a pattern"""
    return is_app(t) and (t.decl().kind() in (Z3_OP_UNINTERPRETED, Z3_OP_ANUM, Z3_OP_ADD, Z3_OP_SUB)) and all(is_var_free_ok(c) for c in t.children())
def is_var_free_ok(c): return plain(c)
def FA(vs, body, patterns=()):
    ps = [x for x in patterns if plain(x) and x.num_args() > 0 and x.decl().kind() == Z3_OP_UNINTERPRETED]
    return ForAll(vs, body, patterns=ps) if ps else ForAll(vs, body)
class NText(TextModel):
    """texts whose bracketed decimal numerals are taken apart, so that "o[0]" and "o[" + to_string(0) + "]" are the same text"""
    def lit(self, bs): return self.split(bytes(bs).decode('latin1'))
    def cat(self, a, b):
        """concatenation in the normal form ((a b) c): only texts merged at joins need the associativity axiom"""
        if a.eq(self.EMPTY): return b
        if b.eq(self.EMPTY): return a
        if is_app(b) and b.decl().eq(self.cat_): return self.cat(self.cat(a, b.arg(0)), b.arg(1))
        return self.cat_(a, b)
    @staticmethod
    def split(s):
        ps = [x for x in re.split(r'(\[|\]|(?<=\[)\d+(?=\]))', s) if x]; t = None
        for x in ps:
            y = dec(IntVal(int(x))) if x.isdigit() and len(ps) > 1 and str(int(x)) == x else TextModel.lit_(x.encode('latin1'))
            t = y if t is None else TextModel.cat_(t, y)
        return TextModel.EMPTY if t is None else t
def TM(ex): return getattr(ex.contracts, 'text', NText)(ex)
def lit(s): return NText.split(s)
def nm(p, i): return TextModel.cat_(TextModel.cat_(TextModel.cat_(p, lit('[')), dec(i)), lit(']'))
class ToString(Contract):
    trusted = True
    def __init__(self, name): self.name = name
    def apply(self, ex, st, a, tys, ats, ins): TM(ex).set(st, a[0], dec(a[1])); return None
STRT = 'NSt7__cxx1112basic_stringIcSt11char_traitsIcESaIcEEE'
def tsplit(ex, st, p): return TM(ex).get(st, into(ex, one(p)))
def fieldp(p, k): return Ptr(p.r, p.idx, p.path + (('f', k),))
class PairOp(Contract):
    """std::pair of strings / of a string and a number: constructors, assignment, destructor"""
    trusted = True
    def __init__(self, name, kinds, op): self.name, self.kinds, self.op = name, kinds, op
    def put(self, ex, st, d, kind, s):
        M = TM(ex)
        if kind == 's': M.set(st, d, M.get(st, into(ex, one(s))))
        elif kind == 'c': M.set(st, d, M.cstr(st, s))
        else: ex.store(st, d, L64, ex.load(st, s, L64))
    def apply(self, ex, st, a, tys, ats, ins):
        if self.op == 'nop': return None
        p = one(a[0])
        if self.op == 'default':
            M = TM(ex)
            for k, c in enumerate(self.kinds):
                if c == 's': M.set(st, fieldp(p, k), M.lit([]))
                else: ex.store(st, fieldp(p, k), L64, IntVal(0))
            return None
        if self.op == 'copy':
            for k, c in enumerate(self.kinds): self.put(ex, st, fieldp(p, k), c, fieldp(one(a[1]), k))
            return p if ins.ty[0] == 'ptr' else None
        for k, c in enumerate(self.op): self.put(ex, st, fieldp(p, k), c, a[1 + k])
        return None
def parse_pair(n):
    m = re.match(r'_ZN?K?St4pairI(?:K)?NSt7__cxx1112basic_stringIcSt11char_traitsIcESaIcEEE(S\d*_|l|m|PKc)E(.*)$', n)
    if m and not n.startswith('_ZNSt4pairI'): m = None
    if m:
        kinds = ('s', 'n' if m.group(1) in 'lm' else 's'); t = m.group(2)
        if re.match(r'D[12]Ev$', t): return PairOp(n, kinds, 'nop')
        if re.match(r'C[12](IS\d*_(l|S\d*_)?(TnNSt9enable_if.*|Lb1E)?E)?E?Ev$', t) or re.match(r'C[12]I.*Ev$', t) or t in ('C2Ev', 'C1Ev'): return PairOp(n, kinds, 'default')
        if re.match(r'(C[12]E|aSE)(RKS\d*_|OS\d*_|RKSt4pair|OSt4pair).*$', t): return PairOp(n, kinds, 'copy')
        if re.match(r'C[12]I.*E(O|RK)S\d*_I\w+E$', t): return PairOp(n, kinds, 'copy')      # from a pair of other types, a C string standing for its text
        q = re.match(r'C[12]I(.*)$', t)
        if q:
            ar = q.group(1); k1 = re.match(r'(RA\d+_K?c|RKA\d+_c|PKc|RPKc|RKS\d*_|RS\d*_|S\d*_|RKNSt7__cxx1112basic_string\w*?EEE?)(.*)$', ar)
            if k1:
                f = 'c' if re.match(r'RK?A\d|R?PKc', k1.group(1)) else 's'; r2 = k1.group(2)
                if kinds[1] == 'n':
                    if re.match(r'R?K?[lm]', r2): return PairOp(n, kinds, (f, 'n'))
                else: return PairOp(n, kinds, (f, 'c' if re.match(r'RK?A\d|R?PKc', r2) else 's'))
        return PairOp(n, kinds, '?')
    m = re.match(r'_ZSt9make_pairI(.*)$', n)
    if m: return MakePair(n, m.group(1))
    return None
class MakePair(Contract):
    trusted = True
    def __init__(self, name, t): self.name, self.t = name, t
    def apply(self, ex, st, a, tys, ats, ins):
        k1 = re.match(r'(RA\d+_K?c|RKA\d+_c|PKc|RPKc|RK?S\d*_|S\d*_|RK?NSt7__cxx1112basic_stringIcSt11char_traitsIcESaIcEEE?|NSt7__cxx1112basic_stringIcSt11char_traitsIcESaIcEEE)(.*)$', self.t)
        if not k1: raise Unsupported('make_pair: ' + self.name)
        f = lambda s: 'c' if re.match(r'RK?A\d|R?PKc', s) else 's'
        if re.match(r'R?K?[lmij]E', k1.group(2)): raise Unsupported('make_pair: ' + self.name)
        M = TM(ex)
        for k, c in enumerate((f(k1.group(1)), f(k1.group(2)))): M.set(st, fieldp(one(a[0]), k), M.get(st, into(ex, one(a[1 + k]))) if c == 's' else M.cstr(st, a[1 + k]))
        return None
def mapleaf(ex, p, v):
    lp, ix = ex.leaf(cell(p, v)); return lp + ('*',), ix
class Table:
    """the table in a state"""
    def __init__(self, ex, st, p):
        p = one(p); l1, ix = mapleaf(ex, p, HAS); l2, _ = mapleaf(ex, p, VAL); h = ex.getmem(st, p.r, l1, I(1)); v = ex.getmem(st, p.r, l2, L64)
        self.has = lambda k: h.read(ix + (k,)); self.val = lambda k: v.read(ix + (k,))
class MapOp(Contract):
    trusted = True
    def __init__(self, name, op): self.name, self.op = name, op
    def apply(self, ex, st, a, tys, ats, ins):
        op = self.op; p = one(a[0])
        if op == 'nop': return None
        if not isinstance(p, Ptr): raise Unsupported('map %r' % (p,))
        if op in ('ctor', 'clear'):
            setwhole(ex, st, p, HAS, I(1), lambda i: BoolVal(False)); return None
        key = tsplit(ex, st, a[1]) if op not in ('insert', 'emplace', 'size', '?') else None
        b = ex.bounds; ex.bounds = False
        try:
            T = Table(ex, st, p); H = lambda k: cell(p, HAS, ('a', k)); V = lambda k: cell(p, VAL, ('a', k))
            if op == 'count': return If(T.has(key), IntVal(1), IntVal(0))
            if op == 'ix':
                v = If(T.has(key), T.val(key), IntVal(0)); ex.store(st, V(key), L64, ex.simp(v)); ex.store(st, H(key), I(1), BoolVal(True)); return V(key)
            if op == 'at': ex.oblige(st, 'call', 'map::at of a present key', T.has(key)); return V(key)
            if op == 'insert':
                q = one(a[1]); key = tsplit(ex, st, fieldp(q, 0)); new = ex.load(st, fieldp(q, 1), L64)
                old = T.has(key); ex.store(st, V(key), L64, ite(simplify(old), T.val(key), new)); ex.store(st, H(key), I(1), BoolVal(True))
                return [ex.lib_val(PTR), Not(old)] if ins.ty[0] == 'struct' else None
        finally: ex.bounds = b
        raise Unsupported('map operation %s has no contract' % self.name)
def parse_map(n):
    m = re.match(r'_ZNK?St3mapI' + re.escape(STRT) .rstrip('E') + r'E*lSt4lessIS5_ESaISt4pairIKS5_lEEE(.*)$', n) or re.match(r'_ZNK?St3mapINSt7__cxx1112basic_stringIcSt11char_traitsIcESaIcEEElSt4lessIS\d*_ESaISt4pairIKS\d*_lEEE(.*)$', n)
    if not m: return None
    t = m.group(1)
    for pat, op in ((r'C[12]Ev$', 'ctor'), (r'D[12]Ev$', 'nop'), (r'5clearEv$', 'clear'), (r'5countE[RO]', 'count'), (r'ixE[RO]', 'ix'), (r'2atE[RO]', 'at'), (r'6insert(I.*|E[RO].*)$', 'insert')):
        if re.match(pat, t): return MapOp(n, op)
    return MapOp(n, '?')
SVEC = {'14ReadGateString': RGS}
def pair_type(mod):
    """LLVM type of pair<string,string>"""
    st = S('class.std::__cxx11::basic_string')
    for n, f in mod.types.named.items():
        if n.startswith('struct.std::pair') and f is not None and len(f) == 2 and all(x == st for x in f): return S(n)
    return None
def sleaves(ex, T):
    """leaves of an object, a string being one leaf"""
    if T == S('class.std::__cxx11::basic_string'): yield (('f', TX),), L64
    elif ex.is_struct(T):
        for k, f in enumerate(ex.fields(T)):
            for q, t in sleaves(ex, f): yield (('f', k),) + q, t
    elif T[0] == 'arr':
        for k in range(T[1]):
            for q, t in sleaves(ex, T[2]): yield (('a', k),) + q, t
    else: yield (), T
def spath(ex, p, q): return Ptr(p.r, p.idx, p.path + tuple(('f', c[1]) if c[0] == 'f' else ('a', ex.ival(c[1])) for c in q))
class SVecOp(Contract):
    """std::vector of objects holding strings"""
    trusted = True
    def __init__(self, name, op, T): self.name, self.op, self.T = name, op, T
    def apply(self, ex, st, a, tys, ats, ins):
        op = self.op; p = into(ex, one(a[0])); T = self.T
        if not isinstance(p, Ptr): raise Unsupported('vector %r' % (p,))
        if op == 'nop': return None
        if op in ('ctor0', 'clear'): ex.store(st, cell(p, LEN), L64, IntVal(0)); return None
        if op == 'ctorn' and is_num(a[1]) and a[1].as_long() == 0: ex.store(st, cell(p, LEN), L64, IntVal(0)); return None
        l = vlen(ex, st, p)
        if op == 'size': return l
        if op == 'empty': return l == 0
        if op in ('at', 'front', 'back'):
            i = a[1] if op == 'at' else IntVal(0) if op == 'front' else ex.simp(l - 1)
            ex.oblige(st, 'bounds', 'vector index in bounds', And(i >= 0, i < l)); return cell(p, data(T), ('a', i))
        if op == 'pop': ex.oblige(st, 'bounds', 'pop_back of a non-empty vector', l > 0); ex.store(st, cell(p, LEN), L64, ex.simp(l - 1)); return None
        if op == 'push':
            q = cell(p, data(T), ('a', l)); s = one(a[1]); b = ex.bounds; ex.bounds = False
            for c, t in sleaves(ex, T): ex.store(st, spath(ex, q, c), t, ex.load(st, spath(ex, s, c), t))
            ex.bounds = b; ex.store(st, cell(p, LEN), L64, ex.simp(l + 1)); return None
        raise Unsupported('vector operation %s has no contract' % self.name)
def parse_svec(n, pt):
    m = re.match(r'_ZNK?St6vectorI(\d+[A-Za-z]\w*?|St4pairINSt7__cxx1112basic_stringIcSt11char_traitsIcESaIcEEES\d*_E)SaIS\d*_EE(.*)$', n)
    if not m: return None
    T = SVEC.get(m.group(1)) or (pt if m.group(1).startswith('St4pair') else None)
    if T is None: return None
    for pat, op in ((r'ixEm$', 'at'), (r'2atEm$', 'at'), (r'4sizeEv$', 'size'), (r'5emptyEv$', 'empty'), (r'9push_backE(RK|O)[\w]+$', 'push'), (r'8pop_backEv$', 'pop'), (r'4backEv$', 'back'), (r'5frontEv$', 'front'), (r'5clearEv$', 'clear'), (r'C[12]Ev$', 'ctor0'), (r'C[12]EmRKS\d*_$', 'ctorn'), (r'D[12]Ev$', 'nop'), (r'7reserveEm$', 'nop')):
        if re.match(pat, m.group(2)): return SVecOp(n, op, T)
    return SVecOp(n, '?', T)
class NetReg(STL):
    structural = 'struct.std::pair'      # pairs are plain structs
    def __init__(self, mod=None): super().__init__(NText); self.nc = {}; self.pt = None
    def lookup(self, m):
        c = Registry.lookup(self, m)
        if c is not None: return c
        if m not in self.nc: self.nc[m] = parse_map(m) or parse_pair(m) or parse_svec(m, self.pt) or (ToString(m) if re.match(r'_ZNSt7__cxx119to_stringE[jmyilx]$', m) else None)
        if self.nc[m] is not None: return self.nc[m]
        return super().lookup(m)
    def external(self, ex, st, name, args, tys, ins):
        if re.match(r'_ZNK?St(3map|4pair|6vector)', name):
            for x in args:
                if isinstance(x, Ptr): raise Unsupported('library call %s on a modelled object' % name)
        return super().external(ex, st, name, args, tys, ins)

PORTS = [('p_init', 3), ('g_init', 4), ('e_init', 5), ('p_input', 6), ('g_input', 7), ('e_input', 8)]
class Names:
    """the netlist as read: lists of names and sizes"""
    def __init__(self, ex, st, p):
        p = one(p); self.p = p
        for n, f in PORTS + [('output', 9)]:
            v = peek(ex, st, p, RCS, f); setattr(self, n, v); ex.nn(v)
        self.has_term = peek(ex, st, p, RCS, 10) != 0
        self.g, self.d, self.a = (fld(ex, p, k) for k in range(3))
        self.ng, self.nd, self.na = (vlen(ex, st, x) for x in (self.g, self.d, self.a))
        tx = lambda q, T, *r: rd(ex, st, q, data(T), L64, *r, TX)
        self.gin, self.gout, self.din, self.dout = tx(self.g, RGS, 0, '*'), tx(self.g, RGS, 1), tx(self.d, RGS, 0, '*'), tx(self.d, RGS, 1)
        self.gty, self.dty = rd(ex, st, self.g, data(RGS), I(16), 2), rd(ex, st, self.d, data(RGS), I(16), 2)
        pt = ex.contracts.pt; self.al, self.ar = tx(self.a, pt, 0), tx(self.a, pt, 1)
        self.off = {}; o = IntVal(0)
        for n, _ in PORTS: self.off[n] = o; o = ex.simp(o + getattr(self, n))
        self.B = o; self.N = ex.simp(o + self.nd + self.ng)
    def named(self):
        """D names the wires of the netlist: ports, flip-flops and gates are numbered in order; the two sides of an assignment are the same wire"""
        i, k = Ints('ni nk'); out = []
        for n, _ in PORTS:
            s = getattr(self, n); o = self.off[n]
            out += [FA([i], Implies(And(i >= 0, i < s), And(D(nm(lit(n), i)) == o + i, KN(0, nm(lit(n), i)))), patterns=[nm(lit(n), i)]), Implies(s == 1, And(D(lit(n)) == o, KN(0, lit(n)), D(nm(lit(n), IntVal(0))) == o))]
        out += [FA([i], Implies(And(i >= 0, i < self.nd), And(D(self.dout(i)) == self.B + i, KN(0, self.dout(i)))), patterns=[self.dout(i)]),
                FA([i], Implies(And(i >= 0, i < self.ng), And(D(self.gout(i)) == self.B + self.nd + i, KN(0, self.gout(i)))), patterns=[self.gout(i)])]
        for t, v in (('', -1), ("1'b0", -2), ("1'b1", -3)): out += [D(lit(t)) == v, KN(0, lit(t))]
        out += [FA([i], Implies(And(i >= 0, i < self.na), D(self.al(i)) == D(self.ar(i))), patterns=[self.al(i)]), Implies(self.output == 1, D(lit('o')) == D(lit('o[0]')))]
        return out
    def known0(self, k, i):
        """k is a name of port bit i / flip-flop i / gate i, or a constant"""
        c = []
        for n, _ in PORTS:
            s = getattr(self, n); c += [And(i >= 0, i < s, k == nm(lit(n), i)), And(s == 1, k == lit(n))]
        return Or(*c, And(i >= 0, i < self.nd, k == self.dout(i)), And(i >= 0, i < self.ng, k == self.gout(i)), *[k == lit(t) for t in ('', "1'b0", "1'b1")])
    def known(self):
        """KN(i, k): name k is connected to a wire by the first i assignments (least such relation); UNRES: a name the netlist uses is never connected"""
        i, k = Ints('ki kk'); n = self.na; u = lambda x: Not(KN(n, x))
        return [FA([k], Implies(KN(0, k), self.known0(k, WIT(k))), patterns=[KN(0, k)]),
                FA([i, k], Implies(And(i >= 0, i < n, KN(i + 1, k)), Or(KN(i, k), And(Or(k == self.al(i), k == self.ar(i)), Or(KN(i, self.al(i)), KN(i, self.ar(i)))))), patterns=[KN(i + 1, k)]),
                FA([i, k], Implies(And(i >= 0, i < self.ng, k >= 0, k < 2, u(self.gin(i, k))), UNRES), patterns=[self.gin(i, k)]), FA([i], Implies(And(i >= 0, i < self.ng, u(self.gout(i))), UNRES), patterns=[self.gout(i)]),
                FA([i, k], Implies(And(i >= 0, i < self.nd, k >= 0, k < 2, u(self.din(i, k))), UNRES), patterns=[self.din(i, k)]), FA([i], Implies(And(i >= 0, i < self.nd, u(self.dout(i))), UNRES), patterns=[self.dout(i)]),
                Implies(And(self.output == 1, u(lit('o')), u(lit('o[0]'))), UNRES), FA([i], Implies(And(i >= 0, i < self.output, self.output != 1, u(nm(lit('o'), i))), UNRES), patterns=[nm(lit('o'), i)]),
                Implies(And(self.has_term, Or(u(lit('terminate')), D(lit('terminate')) == 0)), UNRES)]      # number 0 stands for no terminate signal
WIT = Function('named_by', IntSort(), IntSort())      # the number under which a name is introduced

def decls(t, out=None, seen=None):
    out = set() if out is None else out; seen = set() if seen is None else seen
    if t.get_id() in seen: return out
    seen.add(t.get_id())
    if is_quantifier(t): decls(t.body(), out, seen); return out
    if is_app(t):
        out.add(t.decl().name())
        for c in t.children(): decls(c, out, seen)
    return out
def sound(T, k=None):
    k = Int('sk'); return FA([k], Implies(T.has(k), T.val(k) == D(k)), patterns=[T.has(k)])
def keeps(T, T2):
    k = Int('mk'); return FA([k], Implies(T.has(k), T2.has(k)), patterns=[T.has(k)])
def counted(C, ex):
    """local 64-bit counters kept in memory that the loop increments: they count along with the loop"""
    out = []
    for key in C.wkeys:
        r, ty = ex.regions[key]
        if r.kind == 'alloca' and key[1] == () and ty == L64 and r.dims == 1:
            z = (ex.zero(),)
            d0 = C.entry.mem.get(key); d0 = d0 if d0 is not None else ex.initial(r, (), ty)
            d = simplify(C.dry_back.mem[key].read(z) - d0.read(z))
            if is_num(d) and d.as_long() == 1: out.append((r, d0.read(z)))
    return out
class AddWires(Contract):
    """AddWireArray: every name of every bit of the port is entered under the next free numbers"""
    name = unit = 'AddWireArray'; params = ('table', 'port', 'size', 'idx')
    def setup(self, ex, st, fn):
        mk = lambda n, t: Ptr(Region(n, t, ex.ival(1), 'param'), (ex.zero(),))
        sz = Int('size'); ex.nn(sz)
        return [mk('table', S('class.std::map')), mk('port', S('class.std::__cxx11::basic_string')), sz, mk('index', L64)]
    def V(self, k, st): return Table(k.ex, st, k.table), tsplit(k.ex, st, k.port), peek(k.ex, st, one(k.idx), L64)
    def pre(self, k):
        T, p, w = self.V(k, k.old); i = Int('ai'); z = k.size
        return [('sizes', And(w >= 0, z >= 0, w + z < 2**31)), ('table agrees with the netlist', sound(T)),
                ('the port bits are the next wires', And(FA([i], Implies(And(i >= 0, i < z), D(nm(p, i)) == w + i), patterns=[nm(p, i)]), Implies(z == 1, D(p) == w)))]
    def mods(self, k):
        t = one(k.table); (l1, _), (l2, _) = mapleaf(k.ex, t, HAS), mapleaf(k.ex, t, VAL)
        return [('leaf', t.r, l1, I(1)), ('leaf', t.r, l2, L64), ('cell', one(k.idx), L64)]
    def loop(self, C, k):
        ex = C.ex; T, p, w = self.V(k, C.cur); T0_, _, w0 = self.V(k, k.old); i = Int('li')
        if C.iv is None: return []
        d = C.iv - C.start
        return [('table agrees with the netlist', sound(T)), ('nothing is lost', keeps(T0_, T)), ('numbers count along', w == w0 + d), ('bits so far are entered', FA([i], Implies(And(i >= 0, i < d), T.has(nm(p, i))), patterns=[nm(p, i)]))]
    def post(self, k):
        T, p, w = self.V(k, k.old); T2, _, w2 = self.V(k, k.new); i = Int('ai'); z = k.size
        return [('the next free number is past the port', w2 == w + z), ('table agrees with the netlist', sound(T2)), ('nothing is lost', keeps(T, T2)),
                ('every bit of the port has an entry', And(FA([i], Implies(And(i >= 0, i < z), T2.has(nm(p, i))), patterns=[nm(p, i)]), Implies(z == 1, T2.has(p))))]
class IdAssign(Contract):
    """IdAssignment: every reference of the circuit is the number of the wire the netlist's name denotes"""
    name = unit = 'IdAssignment'; params = ('names', 'rc')
    def setup(self, ex, st, fn):
        mk = lambda n, t: Ptr(Region(n, t, ex.ival(1), 'param'), (ex.zero(),))
        return [mk('names', RCS), mk('circuit', RC)]
    def N(self, k): return Names(k.ex, k.old, k.names)
    def pre(self, k): N = self.N(k); return [('fewer than 2^31 wires and sizes not negative', conj([N.N < 2**31, N.nd >= 0, N.ng >= 0, N.na >= 0, N.output >= 0, N.output < 2**31] + [getattr(N, n) >= 0 for n, _ in PORTS])), ('no two wires have the same name; assignments connect', conj(N.named()))]
    def axioms(self, k): return self.N(k).known()
    def mods(self, k):
        ex = k.ex; rc = one(k.rc); out = []
        for f, T in ((0, L64), (1, RG), (2, RG)): out += vmods(ex, fld(ex, rc, f), T)
        return out + [('cell', fld(ex, rc, f), L64) for f in range(4, 14)]
    def table(self, ex, C):
        for (rid, lp) in list(C.cur.mem):
            r = ex.regions[(rid, lp)][0]
            if r.kind == 'alloca' and lp and lp[0] == HAS: return Ptr(r, (ex.zero(),) * r.dims)
        return None
    def loop(self, C, k):
        ex = C.ex; N = self.N(k); p = self.table(ex, C)
        if p is None: return []
        T = Table(ex, C.cur, p); T0_ = Table(ex, C.entry, p); out = [('table agrees with the netlist', sound(T)), ('nothing is lost', keeps(T0_, T))]
        if C.iv is None or C.step != 1: return out
        i, q, kk = Ints('li lq lk'); d = C.iv - C.start
        for r, v0 in counted(C, ex): out.append(('numbers count along', ex.getmem(C.cur, r, (), L64).read((ex.zero(),)) == v0 + d))
        key = [x for x in C.wkeys if x[0] == p.r.id and x[1] and x[1][0] == HAS]
        if key:
            h = C.dry_back.mem[key[0]]; s_ = decls(simplify(h.read((ex.zero(), Int('any_name'))))); has = lambda f, *j: f(*j).decl().name() in s_
            if has(N.dout, i): out.append(('flip-flops so far are entered', FA([i], Implies(And(i >= 0, i < d), T.has(N.dout(i))), patterns=[N.dout(i)])))
            if has(N.gout, i): out.append(('gates so far are entered', FA([i], Implies(And(i >= 0, i < d), T.has(N.gout(i))), patterns=[N.gout(i)])))
            if has(N.al, i) or has(N.ar, i): out.append(('names connected so far are entered', FA([kk], Implies(KN(d, kk), T.has(kk)), patterns=[KN(d, kk), T.has(kk)])))
        rc = one(k.rc); wr = lambda f: any(x[0] == rc.r.id and x[1] and x[1][0] == f for x in C.wkeys)
        z = IntVal(0); st = C.cur
        out += [(n, f) for w, n, f in self.result(k, N, st, d) if wr(w)]
        return out
    def result(self, k, N, st, d):
        ex = k.ex; rc = one(k.rc); i, q = Ints('ri rq'); out = []
        for f, nm_, inp, outp, ty in ((1, 'gate', N.gin, N.gout, N.gty), (2, 'flip-flop', N.din, N.dout, N.dty)):
            v = V(ex, st, fld(ex, rc, f), RG)
            out += [(f, '%s inputs are the wires named' % nm_, FA([i, q], Implies(And(i >= 0, i < d, q >= 0, q < 2), v.inp(i, q) == D(inp(i, q))), patterns=[v.inp(i, q)])), (f, '%s outputs are the wires named' % nm_, FA([i], Implies(And(i >= 0, i < d), v.out(i) == D(outp(i))), patterns=[v.out(i)])),
                    (f, '%s types are kept' % nm_, FA([i], Implies(And(i >= 0, i < d), v.type(i) == ty(i)), patterns=[v.type(i)]))]
        o = V(ex, st, fld(ex, rc, 0), L64)
        return out + [(0, 'circuit outputs are the wires named', FA([i], Implies(And(i >= 0, i < d), o.at(i) == D(nm(lit('o'), i))), patterns=[o.at(i)]))]
    def post(self, k):
        ex = k.ex; N = self.N(k); ok = k.result == 0; C = Circ(ex, k.new, k.rc); L = {1: N.ng, 2: N.nd, 0: N.output}; out = []
        for w in (1, 2, 0): out += [(n, Implies(ok, f)) for x, n, f in self.result(k, N, k.new, L[w]) if x == w]
        return [('reports success or failure', Or(k.result == 0, k.result == -1)), ('fails only if a name is not connected to any wire, or the terminate signal is wire 0', Or(ok, UNRES)), ('a terminate signal without a number of its own is refused', Implies(And(ok, N.has_term), D(lit('terminate')) != 0)),
                ('port sizes are the netlist\'s', Implies(ok, conj([getattr(C, n) == getattr(N, n) for n, _ in PORTS]))), ('gate, flip-flop and output counts are the netlist\'s', Implies(ok, And(C.gate == N.ng, C.dff == N.nd, C.output == N.output, C.gates.len == N.ng, C.dffs.len == N.nd, C.outs.len == N.output))),
                ('the terminate signal is the wire named', Implies(And(ok, N.has_term), C.term == D(lit('terminate')))), ('no terminate signal, no change', Implies(And(ok, Not(N.has_term)), C.term == Circ(ex, k.old, k.rc).term))] + out
# ---------------------------------------------------------------- Verilog2SCD, Bris2SCD
class Step(Contract):
    """a stage of the translation: succeeds or fails; what it is given and in which order is recorded"""
    def __init__(self, D, name, n, args): self.D, self.name, self.n, self.args = D, name, n, args
    def apply(self, ex, st, a, tys, ats, ins):
        D = self.D; need = lambda what, g: ex.oblige(st, 'call', '%s: %s' % (self.name, what), g)
        need('runs after the stages before it, once', ex.gget(st, 'stage') == self.n)
        for x, w in zip(a, self.args):
            x = one(x)
            if w in ('names', 'circuit'):
                if not isinstance(x, Ptr) or x.path: raise Unsupported('%s: argument %s is %r' % (self.name, w, x))
                o = D.obj.setdefault(w, x.r.id); need('works on the %s of this translation' % w, BoolVal(o == x.r.id and len(set(D.obj.values())) == len(D.obj)))
            else: need('uses the %s given' % w, BoolVal(isinstance(x, Handle) and x.t.eq(getattr(D, w).t)))
        f = ex.fresh('stage_fails', BoolSort()); ex.gset(st, 'failed', Or(ex.gget(st, 'failed'), f)); ex.gset(st, 'stage', IntVal(self.n + 1)); return If(f, IntVal(-1), IntVal(0))
class Pipeline(Contract):
    params = ('src', 'map', 'scd')
    def __init__(self, name, parse): self.name = self.unit = name; self.parse = parse; self.obj = {}
    def ghost_init(self, ex): return dict(stage=IntVal(0), failed=BoolVal(False))
    def setup(self, ex, st, fn):
        self.obj = {}; self.src, self.map, self.scd = (Handle(Int('name_of_' + n)) for n in ('netlist', 'mapping', 'scd')); return [self.src, self.map, self.scd]
    def callees(self): return [Step(self, self.parse, 0, ('src', 'names')), Step(self, 'IdAssignment', 1, ('names', 'circuit')), Step(self, 'SortNetlist', 2, ('circuit', 'names')), Step(self, 'WriteMapping', 3, ('names', 'circuit', 'map')), Step(self, 'WriteSCD', 4, ('circuit', 'scd')), Keep(self.name)]
    def post(self, k):
        g = lambda n: k.ex.gget(k.new, n)
        return [('succeeds exactly when every stage succeeded', And(k.result == If(g('failed'), IntVal(-1), IntVal(0)), Implies(Not(g('failed')), g('stage') == 5)))]
PIPES = [Pipeline('Verilog2SCD', 'ParseNetlist'), Pipeline('Bris2SCD', 'ParseBrisNetlist')]
