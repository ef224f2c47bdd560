"""C17: the result text is the hexadecimal numerals of the result bits, as the output mode demands; the parsed inputs are the numbers written."""
from stl import *
from bn import MaskBits
hexof = Function('hex_numeral', IntSort(), IntSort())             # text of a number
nbit = Function('number_bit', IntSort(), IntSort(), BoolSort())    # bit of a number
diff = Function('first_difference', IntSort(), IntSort(), IntSort())
piece = Function('piece', IntSort(), IntSort()); WHOLE = Int('whole_result')
NL = TextModel.lit_([10]); cat = TextModel.cat_; EMPTY = TextModel.EMPTY
class RShift(Contract):
    """BN_rshift(r, a, n): r = a >> n"""
    name = 'BN_rshift'
    def apply(self, ex, st, args, tys, ats, ins):
        r, a, n = args; ex.oblige(st, 'call', 'BN_rshift distance is not negative', n >= 0)
        m = bn_mem(ex, st, a); pa = bn_one(ex, a).idx[:-1]; z = ex.gget(st, 'failed')
        setall(ex, st, bn_one(ex, r), lambda *i: And(i[-1] >= 0, m.read(pa + (ex.simp(i[-1] + n),))))
        ex.note('OpenSSL number operations do not run out of memory'); return IntVal(1)
class BNRShift1(RShift):
    name = 'BN_rshift1'
    def apply(self, ex, st, args, tys, ats, ins): return super().apply(ex, st, list(args) + [IntVal(1)], tys, ats, ins)
class BNCopy(Contract):
    name = 'BN_copy'
    def apply(self, ex, st, args, tys, ats, ins):
        r, a = args; m = bn_mem(ex, st, a); pa = bn_one(ex, a).idx[:-1]
        setall(ex, st, bn_one(ex, r), lambda *i: m.read(pa + (i[-1],))); return r
class BNToHex(Contract):
    """BN_bn2hex(a): a fresh C string, the numeral of a"""
    name = 'BN_bn2hex'
    def apply(self, ex, st, args, tys, ats, ins):
        m = bn_mem(ex, st, args[0]); pa = bn_one(ex, args[0]).idx[:-1]; n = ex.fresh('number', IntSort()); j = Int('hj')
        ex.axiom(st, ForAll([j], nbit(n, j) == And(j >= 0, m.read(pa + (j,))), patterns=[nbit(n, j)]))
        return Handle(hexof(n), 'cstr')
class CryptoFree(Contract):
    name = 'CRYPTO_free'
    def apply(self, ex, st, args, tys, ats, ins): return None
class OutFmt(Contract):
    params = ('gc', 'outputs', 'cycles', 'mode', 'str')
    def __init__(self, low): self.low = low; self.name = self.unit = 'OutputBN2Str' + ('LowMem' if low else 'HighMem')
    def ghost_init(self, ex): return dict(failed=BoolVal(False))
    def setup(self, ex, st, fn):
        self.ex = ex; gc = circuit(ex); self.os = Sizes(ex, st, gc).output
        self.bnr, self.bn = bn_region(ex, 'outputs'); self.b0 = ex.getmem(st, self.bnr, (), I(1))
        self.cc = ex.nn(Int('clock_cycles')); self.mode = ex.nn(Int('output_mode'))
        ex.axiom(st, And(self.cc >= 1, self.mode >= 0, self.mode <= 2, self.cc * self.os < 2**31, self.os < 2**31))
        self.sr = Region('output_str', S('class.std::__cxx11::basic_string'), ex.ival(1), 'param'); self.s = Ptr(self.sr, (ex.zero(),))
        return [gc, self.bn, self.cc, self.mode, self.s]
    def pre(self, k): return []
    def axioms(self, k):
        n, m, i, j = Ints('hn hm hi hj'); T = Function('TXT', IntSort(), IntSort()); self.T = T; os = self.os; U = self.U = Function('TXT_no_separator', IntSort(), IntSort())
        return TextModel.axioms() + [
            ForAll([n, m], Or(hexof(n) == hexof(m), nbit(n, diff(n, m)) != nbit(m, diff(n, m))), patterns=[MultiPattern(hexof(n), hexof(m))]),
            ForAll([j], nbit(WHOLE, j) == And(j >= 0, self.b0.read((j,))), patterns=[nbit(WHOLE, j)]),
            ForAll([i, j], nbit(piece(i), j) == And(j >= 0, j < os, self.b0.read((i * os + j,))), patterns=[nbit(piece(i), j)]),
            T(0) == EMPTY, U(0) == EMPTY, ForAll([i], Implies(i >= 0, U(i + 1) == cat(T(i), hexof(piece(i)))), patterns=[hexof(piece(i))]),
            ForAll([i], Implies(And(i >= 0, i < self.cc), T(i + 1) == If(i < self.cc - 1, cat(cat(T(i), hexof(piece(i))), NL), cat(T(i), hexof(piece(i))))), patterns=[hexof(piece(i))])]
    def late(self, t):
        """the separator is put before the next numeral, not after each"""
        st = [t]
        while st:
            x = st.pop()
            if is_app(x):
                if x.decl().eq(cat) and x.arg(1).eq(NL): return 'text_cat' not in x.arg(0).sexpr()
                st.extend(x.children())
        return False
    def loop(self, C, k):
        if C.iv is None: return []
        i = C.iv; h = hexof(piece(i)); T = self.T
        if C.dry_back is not None and self.late(simplify(TextModel(self.ex).get(C.dry_back, self.s))): T = self.U
        return [('text of the cycles so far', TextModel(self.ex).get(C.cur, self.s) == T(i)), ('touch back', Or(hexof(piece(i - 1)) == h, hexof(piece(i - 1)) != h)), ('touch', Or(h == h, h == hexof(piece(i + 1)))), ('cycle in range', And(i >= 0, i <= self.cc)),
                ('bits are within the result', And(i * self.os >= 0, i * self.os <= self.cc * self.os))]
    def mods(self, k): return [('region', self.sr)]
    def post(self, k):
        ex = self.ex; t = TextModel(ex).get(k.new, self.s)
        ref = hexof(WHOLE); last = hexof(piece(self.cc - 1))
        return [('consecutive mode: one numeral of all result bits', Implies(self.mode == 0, t == ref)),
                ('separated mode: one numeral per cycle, of exactly its output bits, one per line', Implies(self.mode == 1, t == self.T(self.cc))),
                ('last-cycle mode: the numeral of the last cycle\'s output bits', Implies(self.mode == 2, t == (ref if self.low else last))),
                ('reports success', k.result == 0)]
class HexArg(BNHex):
    def apply(self, ex, st, args, tys, ats, ins):
        p = args[0]
        ex.gset(st, 'parsed', ex.gget(st, 'parsed') + 1)
        return super().apply(ex, st, args, tys, ats, ins)
class ParseInit(Contract):
    name = unit = 'ParseInitInputStr'; params = ('is', 'ns', 'isz', 'nsz', 'cc', 'init', 'input')
    def ghost_init(self, ex): return dict(failed=BoolVal(False), parsed=IntVal(0))
    def setup(self, ex, st, fn):
        self.ex = ex; self.hs = [Handle(Int('init_string')), Handle(Int('input_string'))]; self.bn = []; ps = []
        for n in ('init', 'input'):
            r, p = bn_region(ex, n); self.bn.append((r, p)); h = Region(n + '_ptr', PTR, ex.ival(1), 'param'); h.ptr_shape[()] = lambda *i, p=p: p; ps.append(Ptr(h, (ex.zero(),)))
        return self.hs + [ex.nn(Int(x)) for x in ('init_size', 'input_size', 'cycles')] + ps
    def mods(self, k): return [('region', r) for r, p in self.bn]
    def post(self, k):
        j = Int('pj'); ex = self.ex; m = [ex.getmem(k.new, r, (), I(1)) for r, p in self.bn]
        return [('the initial values are the number written in the first string', ForAll([j], Implies(j >= 0, m[0].read((j,)) == hexbit(self.hs[0].t, j)))),
                ('the inputs are the number written in the second string', ForAll([j], Implies(j >= 0, m[1].read((j,)) == hexbit(self.hs[1].t, j)))),
                ('reports success', k.result == 0)]
def fmtreg(c):
    r = STL(TextModel)
    return r.add(*[x for x in BN_BITS() if x.name not in ('BN_num_bits', 'BN_hex2bn', CSTR, DATA)], HexArg(), CStr(CSTR), CStr(DATA), MaskBits(), RShift(), BNRShift1(), BNCopy(), BNToHex(), CryptoFree(), Keep('BN_clear_free'), Keep(c.name))
def fmtspecs(): return [OutFmt(False), OutFmt(True), ParseInit()]
