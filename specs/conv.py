"""C16: the conversions between numbers, binary strings and hexadecimal strings (util.cpp). Strings are length and characters."""
from stl import *
SS = S('class.std::__cxx11::basic_string'); L64 = I(64); U16 = I(16)
BITV = Function('bit_of', IntSort(), IntSort(), BoolSort())          # bit q of a 64-bit word (two's complement)
HEX = [ord(c) for c in '0123456789abcdefABCDEF']
def val(c): return int(chr(c), 16)
def hexch(c): return Or(And(c >= 48, c <= 57), And(c >= 65, c <= 70), And(c >= 97, c <= 102))
def hbit(c, e): return Or([c == x for x in HEX if val(x) >> e & 1])  # bit e of the hex digit c
def binch(c): return Or(c == 48, c == 49)
def mkstr(ex, n): return Ptr(Region(n, SS, ex.ival(1), 'param'), (ex.zero(),))
def mkvec(ex, n): return Ptr(Region(n, S('class.std::vector'), ex.ival(1), 'param'), (ex.zero(),))
class Str:
    def __init__(self, ex, st, p): self.p = one(p); self.len, f = CharModel(ex).get(st, self.p); self.f = f
    def __call__(self, i): return self.f(i)
def smods(ex, p):
    p = one(p); lp, ix = ex.leaf(cell(p, LEN)); out = [('leaf', p.r, lp, L64)]; lp, ix = ex.leaf(cell(p, CH)); return out + [('leaf', p.r, lp + ('*',), I(8))]
def rdv(ex, st, p, T):
    lp, ix = ex.leaf(cell(one(p), data(T))); m = ex.getmem(st, one(p).r, lp + ('*',), T); return lambda i: m.read(ix + (i,))
def isbin(s):
    j = Int('cb_j'); return ForAll([j], Implies(And(j >= 0, j < s.len), binch(s(j))))
def ishex(s):
    j = Int('ch_j'); return ForAll([j], Implies(And(j >= 0, j < s.len), hexch(s(j))))
def strings(ex, C, st):
    """local/result strings the loop writes that are alive when it is entered"""
    out = []; lenp = None
    for k in C.wkeys:
        r, ty = ex.regions[k]
        if r.ety == SS and k[1] == (LEN,):
            l = simplify(ex.getmem(C.entry, r, k[1], ty).read((ex.zero(),) * r.dims))
            if is_num(l) or r.kind == 'param': out.append(Ptr(r, (ex.zero(),)))
    return out
class HexOf:
    """the hexadecimal string r writes the binary string of n characters b (a function of the index from the left), padded with zeros in front"""
    @staticmethod
    def post(r, n, b):
        k = Int('hx_k'); P = 4 * r.len - n; out = [('the text is hexadecimal', ishex(r)), ('no digit is lost', P >= 0)]
        for e in range(4):
            i = 4 * k + e - P
            out.append(('digit bit %d' % (3 - e), ForAll([k], Implies(And(k >= 0, k < r.len), hbit(r(k), 3 - e) == And(i >= 0, b(i))))))
        return out
class Bin2Hex(Contract):
    name = unit = 'bin2hex'; params = ('ret', 'bin')
    def setup(self, ex, st, fn): self.ex = ex; return [mkstr(ex, 'result'), mkstr(ex, 'bin')]
    def pre(self, k):
        b = Str(k.ex, k.old, k.bin)
        return [('the text is binary', isbin(b)), ('length', And(b.len >= 0, b.len < 2**62))]
    def loop(self, C, k):
        ex = self.ex; b0 = Str(ex, k.old, k.bin); b = Str(ex, C.cur, k.bin); h = Str(ex, C.cur, k.ret); j = Int('bj'); P = b.len - b0.len
        if C.iv is None: return []
        out = [('digits written', And(4 * h.len == C.iv, C.iv <= b.len)), ('digits are hexadecimal', ishex(h))]
        for e in range(4): out.append(('digit bit %d' % (3 - e), ForAll([j], Implies(And(j >= 0, j < h.len), hbit(h(j), 3 - e) == (b(4 * j + e) == 49)))))
        return out
    def mods(self, k): return smods(k.ex, k.ret) + smods(k.ex, k.bin)
    def post(self, k):
        b0 = Str(k.ex, k.old, k.bin); return HexOf.post(Str(k.ex, k.new, k.ret), b0.len, lambda i: And(i < b0.len, b0(i) == 49))
class Hex2Bin(Contract):
    name = unit = 'hex2bin'; params = ('ret', 'hex')
    def setup(self, ex, st, fn): self.ex = ex; return [mkstr(ex, 'result'), mkstr(ex, 'hex')]
    def pre(self, k):
        h = Str(k.ex, k.old, k.hex); return [('the text is hexadecimal', ishex(h)), ('length', And(h.len >= 0, h.len < 2**60))]
    def body(self, r, h, n):
        j = Int('xj'); out = [('length', r.len == 4 * n), ('the text is binary', isbin(r))]
        for e in range(4): out.append(('character %d of a digit' % e, ForAll([j], Implies(And(j >= 0, j < n), (r(4 * j + e) == 49) == hbit(h(j), 3 - e)))))
        return out
    def loop(self, C, k):
        if C.iv is None: return []
        return self.body(Str(self.ex, C.cur, k.ret), Str(self.ex, k.old, k.hex), C.iv) + [('position', C.iv <= Str(self.ex, k.old, k.hex).len)]
    def mods(self, k): return smods(k.ex, k.ret) + smods(k.ex, k.hex)
    def post(self, k):
        h = Str(k.ex, k.old, k.hex); return self.body(Str(k.ex, k.new, k.ret), h, h.len)
class Compl(Contract):
    """two's complement: everything to the left of the last 1 is flipped"""
    name = unit = 'towsComplement'; params = ('ret', 'num')
    OA = Function('one_after', IntSort(), BoolSort())
    def setup(self, ex, st, fn): self.ex = ex; return [mkstr(ex, 'result'), mkstr(ex, 'num')]
    def pre(self, k):
        b = Str(k.ex, k.old, k.num); return [('the text is binary', isbin(b)), ('length', And(b.len >= 0, b.len < 2**62))]
    def axioms(self, k):
        b = Str(k.ex, k.old, k.num); j = Int('oj')
        return [ForAll([j], Implies(And(j >= 0, j < b.len), self.OA(j) == And(j + 1 < b.len, Or(b(j + 1) == 49, self.OA(j + 1)))), patterns=[self.OA(j)])]
    def loop(self, C, k):
        if C.iv is None: return []
        b = Str(self.ex, k.old, k.num); r = Str(self.ex, C.cur, k.ret); j = Int('lj'); i = C.iv
        out = [('length', r.len == b.len), ('position', And(i >= -1, i < b.len)), ('done', ForAll([j], Implies(And(j > i, j < b.len), r(j) == If(self.OA(j), If(b(j) == 49, 48, 49), b(j))))), ('rest', ForAll([j], Implies(And(j >= 0, j <= i), r(j) == b(j)))), ('next', Implies(i >= 0, self.OA(i) == self.OA(i)))]
        for n, p in C.phi.items():
            if is_bool(p): out.append(('a 1 was seen', Implies(i >= 0, p == self.OA(i))))
            elif is_int(p) and not p.eq(i) and is_num(C.phi0[n]) and C.phi0[n].as_long() == 0: out.append(('a 1 was seen', Implies(i >= 0, p == If(self.OA(i), 1, 0))))
        return out
    def mods(self, k): return smods(k.ex, k.ret) + smods(k.ex, k.num)
    def post(self, k):
        b = Str(k.ex, k.old, k.num); r = Str(k.ex, k.new, k.ret); j = Int('pj')
        return [('length', r.len == b.len), ('every bit left of the last 1 is flipped, the others kept', ForAll([j], Implies(And(j >= 0, j < b.len), r(j) == If(self.OA(j), If(b(j) == 49, 48, 49), b(j)))))]
# ---------------------------------------------------------------- std::bitset<64>
BS = Virt.make('$bits', I(64))
def bitq(ex, v, q):
    """bit q of the 64-bit word v"""
    if ex.mode == 'int': return BITV(v, q)
    return Extract(0, 0, LShR(v, q)) == 1
class BitsetCtor(Contract):
    name = '_ZNSt6bitsetILm64EEC2Ey'; trusted = True
    def apply(self, ex, st, a, tys, ats, ins): ex.store(st, cell(into(ex, one(a[0])), BS), I(64), a[1]); return None
class BitsetStr(Contract):
    """bitset<64>(s, pos): the first 64 characters from pos, the last of them is bit 0"""
    name = '_ZNSt6bitsetILm64EEC2IcSt11char_traitsIcESaIcEEERKNSt7__cxx1112basic_stringIT_T0_T1_EEm'; trusted = True
    def apply(self, ex, st, a, tys, ats, ins):
        s = Str(ex, st, a[1]); pos = a[2]; v = ex.fresh('bitset', ex.isort())
        if not (is_num(pos) and pos.as_long() == 0): raise Unsupported('bitset from the middle of a string')
        if ex.mode == 'int':
            j = Int('bs_j'); n = If(s.len < 64, s.len, 64)
            ex.oblige(st, 'call', 'the text given to bitset is binary', ForAll([j], Implies(And(j >= 0, j < n), binch(s(j)))))
            ex.axiom(st, ForAll([j], Implies(And(j >= 0, j < 64), BITV(v, j) == And(j < n, s(n - 1 - j) == 49)), patterns=[BITV(v, j)]))
        else:
            n = If(ULT(s.len, 64), s.len, BitVecVal(64, 64)); one_, out = [], []
            for q in range(64):
                one_.append(Implies(ULT(BitVecVal(q, 64), n), Or(s(n - 1 - q) == 48, s(n - 1 - q) == 49)))
                out.append(If(And(ULT(BitVecVal(q, 64), n), s(n - 1 - q) == 49), BitVecVal(1, 1), BitVecVal(0, 1)))
            ex.oblige(st, 'call', 'the text given to bitset is binary', And(one_)); v = Concat(*out[::-1])
        ex.store(st, cell(into(ex, one(a[0])), BS), I(64), v); return None
class BitsetToString(Contract):
    trusted = True
    def __init__(self, name): self.name = name
    def apply(self, ex, st, a, tys, ats, ins):
        v = ex.load(st, cell(into(ex, one(a[1])), BS), I(64))
        CharModel(ex).set(st, a[0], (ex.ival(64), lambda i: If(bitq(ex, v, ex.simp(63 - i)), ex.iconst(I(8), 49), ex.iconst(I(8), 48)))); return None
class BitsetToUlong(Contract):
    trusted = True
    def __init__(self, name): self.name = name
    def apply(self, ex, st, a, tys, ats, ins): return ex.load(st, cell(into(ex, one(a[0])), BS), I(64))
def bitsets(): return [BitsetCtor(), BitsetStr(), BitsetToString('_ZNKSt6bitsetILm64EE9to_stringB5cxx11Ev'), BitsetToUlong('_ZNKSt6bitsetILm64EE8to_ulongEv'), BitsetToUlong('_ZNKSt6bitsetILm64EE9to_ullongEv')]
class Dec2Bin(Contract):
    name = unit = 'dec2bin'; params = ('ret', 'dec', 'n'); mode = 'bv'
    def reg(self): return STL().add(*bitsets()).add(Keep(self.name))
    def setup(self, ex, st, fn):
        self.ex = ex; v = [Const('dec', ex.sort_of(I(64))), Const('bit_len', ex.sort_of(I(16)))]
        return [mkstr(ex, 'result')] + v
    def wide(self, k): return ZeroExt(48, k.n) if k.ex.mode != 'int' else k.n
    def pre(self, k): return [('at most 64 bits are asked for', ule(k.ex, k.n, k.ex.iconst(I(16), 64)))] + ([('width', k.n >= 0)] if k.ex.mode == 'int' else [])
    def mods(self, k): return smods(k.ex, k.ret)
    def post(self, k):
        ex = k.ex; r = Str(ex, k.new, k.ret); n = self.wide(k); j = Const('dj', ex.isort())
        rng = And(j >= 0, j < n) if ex.mode == 'int' else ULT(j, n)
        return [('length', r.len == n), ('the characters are the low bits of the number, highest first', ForAll([j], Implies(rng, r(j) == If(bitq(ex, k.dec, n - 1 - j), ex.iconst(I(8), 49), ex.iconst(I(8), 48)))))]
class ComplBV(Compl):
    """the same contract, used in bit-vector mode for texts of at most 64 characters (each character as an instance)"""
    def apply(self, ex, st, args, tys, ats, ins):
        b = Str(ex, st, args[1]); ex.oblige(st, 'pre', 'precondition of towsComplement: at most 64 characters', ULE(b.len, 64))
        ex.oblige(st, 'pre', 'precondition of towsComplement: the text is binary', And([Implies(ULT(BitVecVal(q, 64), b.len), Or(b(b.len - 1 - q) == 48, b(b.len - 1 - q) == 49)) for q in range(64)]))
        f = ex.fresh_fn('complement', BitVecSort(64), BitVecSort(8)); oa = BoolVal(False); i = b.len - 1; fs = []
        for q in range(64):
            c = b(b.len - 1 - q); fs.append(Implies(ULT(BitVecVal(q, 64), b.len), f(b.len - 1 - q) == If(oa, If(c == 49, BitVecVal(48, 8), BitVecVal(49, 8)), c)))
            oa = Or(oa, And(ULT(BitVecVal(q, 64), b.len), c == 49))
        CharModel(ex).set(st, args[0], (b.len, lambda i: f(i)))
        for x in fs: ex.axiom(st, x)
        CharModel(ex).forget(st, args[1]); return None
class Bin2Dec(Contract):
    name = unit = 'bin2dec'; params = ('bin', 's'); mode = 'bv'
    def reg(self): return STL().add(*bitsets()).add(ComplBV()).add(Keep(self.name))
    def setup(self, ex, st, fn): self.ex = ex; return [mkstr(ex, 'bin'), Const('signed', ex.sort_of(I(1)))]
    def pre(self, k):
        b = Str(k.ex, k.old, k.bin)
        if k.ex.mode == 'int': return [('length', And(b.len >= 1, b.len <= 64)), ('the text is binary', isbin(b))]
        return [('length', And(UGE(b.len, 1), ULE(b.len, 64))), ('the text is binary', And([Implies(ULT(BitVecVal(q, 64), b.len), Or(b(b.len - 1 - q) == 48, b(b.len - 1 - q) == 49)) for q in range(64)]))]
    def mods(self, k): return smods(k.ex, k.bin)
    def post(self, k):
        ex = k.ex; b = Str(ex, k.old, k.bin)
        if ex.mode == 'int':
            q = Int('bq'); return [('bits', ForAll([q], Implies(And(q >= 0, q < 64), BITV(k.result, q) == If(q < b.len, b(b.len - 1 - q) == 49, And(k.s, b(IntVal(0)) == 49))), patterns=[BITV(k.result, q)]))]
        s = k.s if is_bool(k.s) else k.s != 0
        return [('bit %d of the number' % q, (Extract(q, q, k.result) == 1) == If(ULT(BitVecVal(q, 64), b.len), b(b.len - 1 - q) == 49, And(s, b(BitVecVal(0, 64)) == 49))) for q in range(64)]
# ---------------------------------------------------------------- numbers side by side
OFF = Function('offset_of', IntSort(), IntSort()); OWN = Function('owner_of', IntSort(), IntSort())
def offsets(n, L):
    """OFF: prefix sums of the widths; OWN: the number a position belongs to"""
    i, p = Ints('of_i of_p')
    return [OFF(0) == 0, ForAll([i], Implies(And(i >= 0, i < n), OFF(i + 1) == OFF(i) + L(i)), patterns=[L(i)]), ForAll([i], Implies(And(i >= 0, i <= n), And(OFF(i) >= 0, OFF(i) <= OFF(n))), patterns=[OFF(i)]),
            ForAll([i, p], Implies(And(i >= 0, i < n, p >= OFF(i), p < OFF(i) + L(i)), OWN(p) == i), patterns=[MultiPattern(OFF(i), OWN(p))])]
def offlemma():
    L = Function('width', IntSort(), IntSort()); n, i, j = Ints('n i j')
    ax = [n >= 0, OFF(0) == 0, OFF(i + 1) == OFF(i) + L(i), L(i) >= 0, i >= 0, i < n, j > i, j <= n]
    from chan import lemma_obl
    return [lemma_obl('offsets grow: step down', ax + [OFF(i + 1) <= OFF(n)], OFF(i) <= OFF(n)), lemma_obl('offsets grow: step up', ax + [OFF(i) >= 0], OFF(i + 1) >= 0),
            lemma_obl('numbers do not overlap: step', ax + [OFF(i) + L(i) <= OFF(j), OFF(j + 1) == OFF(j) + L(j), L(j) >= 0], OFF(i) + L(i) <= OFF(j + 1)), lemma_obl('numbers do not overlap: start', ax, OFF(i) + L(i) <= OFF(i + 1))]
class FormatInput(Contract):
    name = unit = 'formatGCInputString'; params = ('ret', 'input', 'bit_len')
    def reg(self): return STL().add(Dec2Bin(), Bin2Hex()).add(Keep(self.name))
    def setup(self, ex, st, fn): self.ex = ex; return [mkstr(ex, 'result'), mkvec(ex, 'input'), mkvec(ex, 'bit_len')]
    def parts(self, k): return vlen(k.ex, k.old, k.input), rdv(k.ex, k.old, k.input, L64), vlen(k.ex, k.old, k.bit_len), rdv(k.ex, k.old, k.bit_len, U16)
    def pre(self, k):
        n, v, nl, L = self.parts(k); i = Int('fi')
        return [('one width per number', And(n >= 0, nl == n)), ('widths are at most 64', ForAll([i], Implies(And(i >= 0, i < n), And(L(i) >= 0, L(i) <= 64)))), ('total length', OFF(n) < 2**60)]
    def axioms(self, k):
        n, v, nl, L = self.parts(k); return offsets(n, L)
    def bitat(self, k, p):
        n, v, nl, L = self.parts(k); m = OWN(p); return BITV(v(m), L(m) - 1 - (p - OFF(m)))
    def loop(self, C, k):
        if C.iv is None: return []
        out = [('number in range', And(C.iv >= 0, C.iv <= self.parts(k)[0]))]; p = Int('fp')
        for x in strings(self.ex, C, C.cur):
            s = Str(self.ex, C.cur, x); out += [('length so far', s.len == OFF(C.iv)), ('bits so far', ForAll([p], Implies(And(p >= 0, p < OFF(C.iv)), s(p) == If(self.bitat(k, p), 49, 48))))]
        return out
    def mods(self, k): return smods(k.ex, k.ret)
    def post(self, k):
        n, v, nl, L = self.parts(k); return HexOf.post(Str(k.ex, k.new, k.ret), OFF(n), lambda i: And(i < OFF(n), self.bitat(k, i)))
XB = Function('hex_text_bit', IntSort(), BoolSort())
class ParseOutput(Contract):
    name = unit = 'parseGCOutputString'; params = ('output', 'str', 'bit_len', 'offset')
    def reg(self): return STL().add(Bin2Dec(), Hex2Bin()).add(Keep(self.name))
    def setup(self, ex, st, fn): self.ex = ex; return [mkvec(ex, 'output'), mkstr(ex, 'output_str'), mkvec(ex, 'bit_len'), ex.nn(Int('offset'))]
    def parts(self, k): return vlen(k.ex, k.old, k.output), Str(k.ex, k.old, k.str), vlen(k.ex, k.old, k.bit_len), rdv(k.ex, k.old, k.bit_len, U16)
    def pre(self, k):
        n, h, nl, L = self.parts(k); i = Int('fi')
        return [('one width per number', And(n >= 0, nl == n)), ('widths are 1 to 64', ForAll([i], Implies(And(i >= 0, i < n), And(L(i) >= 1, L(i) <= 64)))), ('total length', And(OFF(n) < 2**60, h.len < 2**60, h.len >= 0, k.offset >= 0, k.offset < 2**16)), ('the text is hexadecimal', ishex(h))]
    def axioms(self, k):
        n, h, nl, L = self.parts(k); p = Int('xp')
        return offsets(n, L) + [ForAll([p], XB(p) == And(p >= 0, p < 4 * h.len, Or([And(p % 4 == e, hbit(h(p / 4), 3 - e)) for e in range(4)])), patterns=[XB(p)])]
    def bits(self, k, out, hi):
        n, h, nl, L = self.parts(k); m, q = Ints('pm pq'); base = 4 * h.len - (OFF(n) + k.offset)
        return ForAll([m, q], Implies(And(m >= 0, m < hi, q >= 0, q < 64), BITV(out(m), q) == XB(base + OFF(m) + If(q < L(m), L(m) - 1 - q, 0))))
    def loop(self, C, k):
        if C.iv is None: return []
        n, h, nl, L = self.parts(k); i = C.iv; res = [('number in range', And(i >= 0, i <= n)), ('next width', L(i) == L(i)), ('same outputs', vlen(self.ex, C.cur, k.output) == n)]
        for x, p in C.phi.items():
            if is_int(p) and not p.eq(i):
                p0 = C.phi0[x]; res.append(('position', p == OFF(i) + p0))
        return res + [('numbers read so far', self.bits(k, rdv(self.ex, C.cur, k.output, L64), i))] if C.written and any(r.id == one(k.output).r.id for r in C.written.values()) else res
    def mods(self, k):
        p = one(k.output); lp, ix = k.ex.leaf(cell(p, data(L64))); return smods(k.ex, k.str) + [('leaf', p.r, lp + ('*',), L64)]
    def post(self, k):
        n, h, nl, L = self.parts(k); return [('as many numbers', vlen(k.ex, k.new, k.output) == n), ('every number is the two\'s complement number at its place in the text', self.bits(k, rdv(k.ex, k.new, k.output, L64), n))]
class FormatMask(Contract):
    name = unit = 'formatGCOutputMask'; params = ('ret', 'g', 'e', 'left')
    def reg(self): return STL().add(Bin2Hex()).add(Keep(self.name))
    def setup(self, ex, st, fn): self.ex = ex; return [mkstr(ex, 'result'), ex.nn(Int('garbler_share')), ex.nn(Int('evaluator_share')), Const('garbler_left', ex.sort_of(I(1)))]
    def pre(self, k): return [('shares', And(k.g >= 0, k.g < 2**16, k.e >= 0, k.e < 2**16))]
    def mods(self, k): return smods(k.ex, k.ret)
    def post(self, k): return HexOf.post(Str(k.ex, k.new, k.ret), k.g + k.e, lambda i: And(i < k.g + k.e, If(k.left, i < k.g, i >= k.e)))
# ---------------------------------------------------------------- Str2Block
SEPS = {32: 1, 9: 2, 95: 4}
STLEN = Function('stripped_len', BitVecSort(8), BitVecSort(64)); STCH = Function('stripped', BitVecSort(8), BitVecSort(64), BitVecSort(8))
class EraseAll(Contract):
    """boost::erase_all(s, "c"): s becomes s without c. STR(m): the argument of Str2Block without the separators in m"""
    trusted = True
    def __init__(self, name): self.name = name
    def apply(self, ex, st, a, tys, ats, ins):
        bs = literal(ex, a[1]); s = Str(ex, st, a[0]); m = ex.gget(st, 'mask'); j = BitVec('er_j', 64)
        if len(bs) != 1 or bs[0] not in SEPS: raise Unsupported('erase_all of %r' % bytes(bs))
        ex.oblige(st, 'call', 'separators are erased from the given text', And(s.len == STLEN(m), ForAll([j], Implies(ULT(j, s.len), s(j) == STCH(m, j)))))
        m = simplify(m | BitVecVal(SEPS[bs[0]], 8)); ex.gset(st, 'mask', m); CharModel(ex).set(st, a[0], (STLEN(m), lambda i: STCH(m, i))); return None
class Stoull(Contract):
    """stoull(s, 0, 16) of 1 to 16 hexadecimal digits"""
    name = '_ZNSt7__cxx116stoullERKNS_12basic_stringIcSt11char_traitsIcESaIcEEEPmi'; trusted = True
    def apply(self, ex, st, a, tys, ats, ins):
        s = Str(ex, st, a[0]); b = simplify(a[2])
        if not (is_num(b) and b.as_long() == 16 and a[1] is NULL): raise Unsupported('stoull with base %s' % b)
        ex.oblige(st, 'call', 'stoull is given 1 to 16 digits', And(UGE(s.len, 1), ULE(s.len, 16)))
        dg = [(BitVecVal(d, 64), s(s.len - 1 - d)) for d in range(16)]
        ex.oblige(st, 'call', 'stoull is given hexadecimal digits', And([Implies(ULT(d, s.len), hexch(c)) for d, c in dg]))
        return Concat(*[If(And(ULT(d, s.len), hbit(c, e)), BitVecVal(1, 1), BitVecVal(0, 1)) for d, c in dg[::-1] for e in (3, 2, 1, 0)])
class Str2Block(Contract):
    name = unit = 'Str2Block'; params = ('s', 'v'); mode = 'bv'
    ERASE = '_ZN5boost9algorithm9erase_allINSt7__cxx1112basic_stringIcSt11char_traitsIcESaIcEEEA2_cEEvRT_RKT0_'
    def reg(self): return STL().add(EraseAll(self.ERASE), Stoull()).add(Keep(self.name))
    def ghost_init(self, ex): return dict(mask=BitVecVal(0, 8))
    def setup(self, ex, st, fn):
        self.ex = ex; self.v = Region('v', VEC, ex.ival(1), 'param'); return [mkstr(ex, 's'), Ptr(self.v, (ex.zero(),))]
    def pre(self, k):
        s = Str(k.ex, k.old, k.s); j = BitVec('sj', 64); M = BitVecVal(7, 8)
        return [('STR(0) is the text', And(s.len == STLEN(BitVecVal(0, 8)), ForAll([j], Implies(ULT(j, s.len), s(j) == STCH(BitVecVal(0, 8), j))))), ('length', ULT(s.len, 2**62)),
                ('apart from separators the text is hexadecimal (of the digits that fit)', And([hexch(STCH(M, BitVecVal(d, 64))) for d in range(32)]))]
    def ok(self): return ULE(STLEN(BitVecVal(7, 8)), 32)
    def loop(self, C, k):
        out = []; M = BitVecVal(7, 8); L0 = STLEN(M)
        for r in C.written.values():
            if r.ety != SS: continue
            s = Str(self.ex, C.cur, Ptr(r, (self.ex.zero(),)))
            out.append(('length', And(UGE(s.len, L0), ULE(s.len, 32))))
            out += [('character %d' % q, Implies(ULT(BitVecVal(q, 64), s.len), s(BitVecVal(q, 64)) == If(ULT(BitVecVal(q, 64), s.len - L0), BitVecVal(48, 8), STCH(M, BitVecVal(q, 64) - (s.len - L0))))) for q in range(32)]
        return out
    def mods(self, k): return [('cell', k.v, VEC)]
    def post(self, k):
        ex = k.ex; v = peek(ex, k.new, k.v, VEC); M = BitVecVal(7, 8); L = STLEN(M)
        v = v if is_bv(v) else v
        return [('more than 32 digits are refused, anything else accepted', k.result == If(self.ok(), BitVecVal(0, 32), BitVecVal(-1, 32))), ('all separators were taken out', ex.gget(k.new, 'mask') == 7)] + [
            ('digit %d of the block' % d, Implies(self.ok(), And([(Extract(4 * d + e, 4 * d + e, v) == 1) == And(ULT(BitVecVal(d, 64), L), hbit(STCH(M, L - 1 - d), e)) for e in range(4)]))) for d in range(32)]
def convreg(c): return c.reg() if hasattr(c, 'reg') else STL().add(Keep(c.name))
def convspecs(): return [Bin2Hex(), Hex2Bin(), Compl(), Dec2Bin(), Bin2Dec(), FormatInput(), ParseOutput(), FormatMask(), Str2Block()]
