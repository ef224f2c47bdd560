"""C15: from the text of a netlist to lists of names. ParseNetlist against a reference reading of the token stream: token p of the file takes the reader from reference state p to p+1."""
from netl import *
from chan import Obl
from vc import Facts
from filehex import parse_file, OPENS, LINE
import build
GOOD = Function('more_to_read', IntSort(), BoolSort()); T = Function('token', IntSort(), IntSort()); FIRST = Function('first_token_of_line', IntSort(), IntSort()); COUNT = Function('tokens_in_line', IntSort(), IntSort())
BR = Function('begins_with_bracket', IntSort(), BoolSort()); WORD = Function('first_word', IntSort(), IntSort()); NUM = Function('number_of_text', IntSort(), IntSort()); CHAR0 = Function('first_char', IntSort(), IntSort())
SV = Virt.make('$strs', ('arr', None, S('class.std::__cxx11::basic_string'))); CONT = Virt.make('$contents', I(64)); SS = S('class.std::__cxx11::basic_string')
class PText(TextModel):
    """literal texts are distinct numbers"""
    cstr_ok = True
    def lit(self, bs): return plit(bytes(bs))
    def eqlit(self, t, bs): return t == plit(bytes(bs))
    def cat(self, a, b):
        if a.eq(plit(b'')): return b
        if b.eq(plit(b'')): return a
        return self.cat_(a, b)
def plit(s):
    if isinstance(s, str): s = s.encode('latin1')
    return IntVal(0) if not s else IntVal(int.from_bytes(b'\x01' + s, 'big'))
# ---------------------------------------------------------------- contracts on the library
class PStr(Contract):
    trusted = True
    def __init__(self, name, op): self.name, self.op = name, op
    def apply(self, ex, st, a, tys, ats, ins):
        M = PText(ex); t = M.get(st, into(ex, one(a[0])))
        if self.op in ('cmpc', 'cmps'):
            u = M.cstr(st, a[1]) if self.op == 'cmpc' else M.get(st, into(ex, one(a[1]))); return If(t == u, IntVal(0), If(ex.fresh('greater', BoolSort()), IntVal(1), IntVal(-1)))
        if self.op in ('eqs', 'nes'): r = t == M.get(st, into(ex, one(a[1]))); return r if self.op == 'eqs' else Not(r)
        if self.op == 'empty': return t == 0
        if self.op == 'at':
            ex.oblige(st, 'bounds', 'the text has a first character', And(a[1] == 0, t != 0)); p = ex.parse.chr; ex.store(st, p, I(8), CHAR0(t)); return p
class Atoi(Contract):
    trusted = True; name = 'atoi'
    def apply(self, ex, st, a, tys, ats, ins): return NUM(PText(ex).cstr(st, a[0]))
class PFile(Contract):
    trusted = True
    def __init__(self, name, op): self.name, self.op = name, op
    def apply(self, ex, st, a, tys, ats, ins):
        op = self.op; n = ex.gget(st, 'line'); M = PText(ex)
        if op == 'nop' or op == 'close': return None
        if op in ('ctors', 'ctorc', 'opens', 'openc'):
            t = M.get(st, a[1]) if op.endswith('s') else M.cstr(st, a[1]); ex.oblige(st, 'call', 'the file opened is the one named', And(t == ex.parse.fname, Not(ex.gget(st, 'open')))); ex.gset(st, 'open', BoolVal(True)); return None
        if op == 'ctor': return None
        good = And(ex.gget(st, 'open'), OPENS, Or(n == 0, GOOD(n)))
        if op == 'bool': return good
        if op == 'not': return Not(good)
        if op == 'is_open': return And(ex.gget(st, 'open'), OPENS)
        if op == 'getline': M.set(st, a[1], LINE(n)); ex.gset(st, 'line', ex.simp(n + 1)); return a[0]
        raise Unsupported('stream operation %s has no contract' % self.name)
class SMapOp(Contract):
    """std::map<string, string>"""
    trusted = True
    def __init__(self, name, op): self.name, self.op = name, op
    def apply(self, ex, st, a, tys, ats, ins):
        op = self.op; p = one(a[0])
        if op == 'nop': return None
        if not isinstance(p, Ptr): raise Unsupported('map %r' % (p,))
        if op in ('ctor', 'clear'): setwhole(ex, st, p, HAS, I(1), lambda i: BoolVal(False)); return None
        M = PText(ex); key = M.get(st, into(ex, one(a[1]))); b = ex.bounds; ex.bounds = False
        try:
            H = cell(p, HAS, ('a', key)); q = cell(p, SV, ('a', key)); has = ex.load(st, H, I(1))
            if op == 'count': return If(has, IntVal(1), IntVal(0))
            if op == 'ix': ex.store(st, cell(q, TX), L64, ite(simplify(has), ex.load(st, cell(q, TX), L64), IntVal(0))); ex.store(st, H, I(1), BoolVal(True)); return q
            if op == 'at': ex.oblige(st, 'call', 'map::at of a present key', has); return q
            if op == 'erase': ex.store(st, H, I(1), BoolVal(False)); return If(has, IntVal(1), IntVal(0))
        finally: ex.bounds = b
        raise Unsupported('map operation %s has no contract' % self.name)
SMAP = r'_ZNK?St3mapINSt7__cxx1112basic_stringIcSt11char_traitsIcESaIcEEES[0-9A-Z]*_St4lessIS[0-9A-Z]*_ESaISt4pairIKS[0-9A-Z]*_S[0-9A-Z]*_EEE(.*)$'
class Sep(Contract):
    """the tokens of a line: names and punctuation, separated by blanks, commas and parentheses; a semicolon is a token"""
    trusted = True
    def __init__(self, name): self.name = name
    def apply(self, ex, st, a, tys, ats, ins):
        d, k = set(literal(ex, a[1])), set(literal(ex, a[2])) if len(a) > 2 else set()
        ex.oblige(st, 'call', 'blanks, commas and parentheses separate tokens, a semicolon is a token', And(BoolVal(d == set(b' ,()\t\r')), BoolVal(k == set(b';')), a[3] == 0 if len(a) > 3 else BoolVal(True))); return None
class Tok(Contract):
    trusted = True
    def __init__(self, name, op): self.name, self.op = name, op
    def apply(self, ex, st, a, tys, ats, ins):
        op = self.op; n = ex.gget(st, 'line'); pos = ex.gget(st, 'pos'); M = PText(ex)
        if op == 'nop': return None
        if op == 'sep_tokenizer': ex.oblige(st, 'call', 'the line taken apart is the one read last', And(n > 0, M.get(st, into(ex, one(a[1]))) == LINE(n - 1))); return None
        if op == 'contain': return a[0]
        if op == 'any': return BoolVal(False)
        if op == 'begin': ex.gset(st, 'pos', FIRST(ex.simp(n - 1))); return None
        if op == 'end': return None
        if op == 'done': return pos == FIRST(n)
        if op == 'deref':
            ex.oblige(st, 'call', 'there is a token left', pos < FIRST(n)); p = ex.parse.tokreg; M.set(st, p, T(pos)); return p
        if op == 'next': ex.gset(st, 'pos', ex.simp(pos + 1)); return None
        if op == 'false': ex.store(st, one(a[0]), I(8), IntVal(0)); return BoolVal(False)
        if op == 'words': ex.store(st, cell(one(a[0]), CONT), L64, M.get(st, into(ex, one(a[1])))); return None
        if op == 'words_begin':
            t = ex.load(st, cell(one(a[1]), CONT), L64); ex.store(st, cell(one(a[0]), CONT), L64, WORD(t)); return None
        if op == 'words_deref':
            p = ex.parse.wordreg; M.set(st, p, ex.load(st, cell(one(a[0]), CONT), L64)); return p
        POS = lambda q: ex.load(st, cell(into(ex, one(q)), CONT), L64); put = lambda q, v: ex.store(st, cell(into(ex, one(q)), CONT), L64, v)
        if op == 'it_begin': v = ex.simp(FIRST(ex.simp(n - 1))); ex.gset(st, 'pos', v); put(a[0], v); return None
        if op == 'it_end': put(a[0], FIRST(n)); return None
        if op == 'it_copy': put(a[0], POS(a[1])); return a[0] if ins.ty[0] == 'ptr' else None
        if op in ('it_eq', 'it_ne'): e = POS(a[0]) == POS(a[1]); return e if op == 'it_eq' else Not(e)
        if op == 'it_deref':
            v = POS(a[0]); ex.oblige(st, 'call', 'there is a token left', And(v == pos, pos < FIRST(n))); p = ex.parse.tokreg; M.set(st, p, T(v)); return p
        if op == 'it_next': v = ex.simp(POS(a[0]) + 1); put(a[0], v); ex.gset(st, 'pos', v); return a[0]
        raise Unsupported('tokenizer operation %s has no contract' % self.name)
TOKIT = r'INS_14char_separatorIcSt11char_traitsIcEEEN9__gnu_cxx17__normal_iterator.*'
def parse_lib(n):
    if n == 'atoi': return Atoi()
    o = parse_file(n)
    if o: return PFile(n, o)
    m = re.match(r'_ZNK?St7__cxx1112basic_stringIcSt11char_traitsIcESaIcEE(.*)$', n)
    if m:
        for pat, op in ((r'7compareEPKc$', 'cmpc'), (r'7compareERKS[0-9A-Z]*_$', 'cmps'), (r'(2at|ix)Em$', 'at'), (r'5emptyEv$', 'empty')):
            if re.match(pat, m.group(1)): return PStr(n, op)
    m = re.match(r'_ZSt(eq|ne)IcSt11char_traitsIcESaIcEEbRKNSt7__cxx1112basic_stringIT_T0_T1_EES[0-9A-Z]*_$', n)
    if m: return PStr(n, m.group(1) + 's')
    m = re.match(SMAP, n)
    if m:
        for pat, op in ((r'C[12]Ev$', 'ctor'), (r'D[12]Ev$', 'nop'), (r'5clearEv$', 'clear'), (r'5countE[RO]', 'count'), (r'ixE[RO]', 'ix'), (r'2atE[RO]', 'at'), (r'5eraseERKS[0-9A-Z]*_$', 'erase')):
            if re.match(pat, m.group(1)): return SMapOp(n, op)
        return SMapOp(n, '?')
    if not re.match(r'_ZNK?5boost', n): return None
    if re.match(r'_ZN5boost14char_separatorIcSt11char_traitsIcEEC[12]EPKcS[0-9A-Z]*_NS_18empty_token_policyE$', n): return Sep(n)
    if re.match(r'_ZN5boost.*D[012]Ev$', n): return Tok(n, 'nop')
    cs, cd = 'char_separator', 'char_delimiters_separator'
    if re.match(r'_ZN5boost9tokenizerINS_14char_separator.*C[12]IS[0-9A-Z]*_EERKT_RKS[0-9A-Z]*_$', n): return Tok(n, 'sep_tokenizer')
    if re.match(r'_ZN5boost9tokenizerINS_25char_delimiters_separator.*C[12]IS[0-9A-Z]*_EERKT_$', n): return Tok(n, 'words')
    if re.match(r'_ZNK5boost9tokenizerINS_25char_delimiters_separator.*5beginEv$', n): return Tok(n, 'words_begin')
    if re.match(r'_ZNK5boost9iterators6detail20iterator_facade_baseINS_14token_iteratorINS_25char_delimiters_separator.*deEv$', n): return Tok(n, 'words_deref')
    for pat, op in ((r'_ZNK5boost9tokenizer' + TOKIT + r'5beginEv$', 'it_begin'), (r'_ZNK5boost9tokenizer' + TOKIT + r'3endEv$', 'it_end'), (r'_ZN5boost9iteratorseqI.*char_separator.*$', 'it_eq'), (r'_ZN5boost9iteratorsneI.*char_separator.*$', 'it_ne'),
                    (r'_ZN5boost14token_iterator' + TOKIT + r'(C[12]|aS)E(RKS|OS)\w+$', 'it_copy'), (r'_ZNK5boost9iterators6detail20iterator_facade_baseINS_14token_iterator' + TOKIT + r'deEv$', 'it_deref'), (r'_ZN5boost9iterators6detail20iterator_facade_baseINS_14token_iterator' + TOKIT + r'ppEv$', 'it_next')):
        if re.match(pat, n): return Tok(n, op)
    m = re.match(r'_ZNK?5boost15foreach_detail_(\d+)(contain|begin|end|done|deref|next|set_false|auto_any_basecv)(.*)$', n)
    if m: return Tok(n, {'set_false': 'false', 'auto_any_basecv': 'any'}.get(m.group(2), m.group(2)))
    return Tok(n, '?')
class ParseReg(NetReg):
    text = PText
    def __init__(self): STL.__init__(self, PText); self.nc = {}; self.pc = {}; self.pt = None
    def lookup(self, m):
        if m not in self.pc: self.pc[m] = parse_lib(m)
        return self.pc[m] or super().lookup(m)
# ---------------------------------------------------------------- the reference reading
PORTNAMES = ['A', 'B', 'D', 'I', 'Z', 'Q', 'IN0', 'IN1', 'CIN', 'SEL', 'COUT', 'SUM', 'F']
GATE2 = ['AND', 'ANDN', 'NAND', 'NANDN', 'OR', 'ORN', 'NOR', 'NORN', 'XOR', 'XNOR']; CELLS = GATE2 + ['IV', 'DFF', 'MUX', 'HADDER', 'FADDER']
def consts():
    """numbers of the gate types, as the sources define them"""
    out = {}
    for l in open(os.path.join(build.REPO, 'util', 'common.h')):
        m = re.match(r'\s*#define\s+(\w+GATE)\s+\(?(-?\d+)\)?', l)
        if m: out[m.group(1)] = int(m.group(2))
    return out
B_, I_ = BoolSort(), IntSort()
FN = {n: Function('ref_' + n, I_, s) for n, s in [('in', B_), ('out', B_), ('left', B_), ('right', B_), ('bits', I_), ('ty', I_), ('key', I_), ('ng', I_), ('nd', I_), ('na', I_), ('osz', I_), ('term', B_), ('fine', B_)] + [('sz_' + n, I_) for n, _ in PORTS] + [('has_' + c, B_) for c in PORTNAMES] + [('at_' + c, I_) for c in PORTNAMES]}
ERR = Function('ref_error', I_, B_)
G = {(w, f): Function('ref_%s_%s' % (w, f), I_, I_) for w in 'gd' for f in ('ty', 'in0', 'in1', 'out')}; AL = Function('ref_assign_left', I_, I_); AR = Function('ref_assign_right', I_, I_, I_)
def emissions(s, K):
    """the gates and flip-flops a finished cell stands for: (list, condition, position, type, inputs, output); and whether the cell is complete"""
    has, at = (lambda c: s['has_' + c]), (lambda c: s['at_' + c]); full = lambda *cs: And(*[And(has(c), at(c) != 0) for c in cs]); is_ = lambda c: s['ty'] == CELLS.index(c) + 1; out = []; ok = []
    ty2 = IntVal(0)
    for c in GATE2: ty2 = If(is_(c), IntVal(K[c + 'GATE']), ty2)
    g2 = Or(*[is_(c) for c in GATE2]); out.append(('g', g2, 0, ty2, at('A'), at('B'), at('Z'))); ok.append((g2, full('A', 'B', 'Z')))
    c = is_('IV'); out.append(('g', c, 0, IntVal(K['NOTGATE']), at('A'), IntVal(0), at('Z'))); ok.append((c, full('A', 'Z')))
    c = is_('DFF'); out.append(('d', c, 0, IntVal(K['DFFGATE']), at('D'), at('I'), at('Q'))); ok.append((c, full('D', 'I', 'Q')))
    X, A = IntVal(K['XORGATE']), IntVal(K['ANDGATE']); mid = lambda n: TextModel.cat_(plit(n), dec(s['ng']))
    c = is_('MUX'); out += [('g', c, 0, X, at('IN0'), at('IN1'), mid('MUX_MID_1_')), ('g', c, 1, A, at('SEL'), mid('MUX_MID_1_'), mid('MUX_MID_2_')), ('g', c, 2, X, at('IN0'), mid('MUX_MID_2_'), at('F'))]; ok.append((c, full('IN0', 'IN1', 'SEL', 'F')))
    n1 = If(has('SUM'), IntVal(1), IntVal(0))
    c = is_('HADDER'); out += [('g', And(c, has('SUM')), 0, X, at('IN0'), at('IN1'), at('SUM')), ('g', And(c, has('COUT')), n1, A, at('IN0'), at('IN1'), at('COUT'))]; ok.append((c, And(full('IN0', 'IN1'), Or(full('SUM'), full('COUT')))))
    c = is_('FADDER'); f1, f2, f3 = (mid('FADDER_MID_%d_' % j) for j in (1, 2, 3)); ok.append((c, And(full('IN0', 'IN1', 'CIN'), Or(full('SUM'), full('COUT')))))
    out += [('g', c, 0, X, at('IN0'), at('CIN'), f1), ('g', And(c, has('SUM')), 1, X, at('IN1'), f1, at('SUM')), ('g', And(c, has('COUT')), 1 + n1, X, at('IN1'), at('CIN'), f2), ('g', And(c, has('COUT')), 2 + n1, A, f1, f2, f3), ('g', And(c, has('COUT')), 3 + n1, X, at('CIN'), f3, at('COUT'))]
    return out, And(*[Implies(c, o) for c, o in ok])
def cases(pairs, d):
    for c, v in reversed(pairs): d = If(c, v, d)
    return d
def step(p, K):
    """what token p does to the state: (facts defining state p+1)"""
    s = {n: f(p) for n, f in FN.items()}; n = {k: f(p + 1) for k, f in FN.items()}; t = T(p); is_ = lambda x: t == plit(x); E = IntVal(0); F_, T_ = BoolVal(False), BoolVal(True)
    bits = NUM(WORD(t)) + 1; width = If(s['bits'] > 0, s['bits'], IntVal(1)); em, complete = emissions(s, K); semi = is_(';'); cell_ = And(semi, s['ty'] != 0); idle = And(semi, s['ty'] == 0)
    # kinds of token, first match wins
    seq = [('semi', semi), ('end', is_('endmodule')), ('input', is_('input')), ('in', s['in']), ('output', is_('output')), ('out', s['out']), ('assign', is_('assign')), ('left', s['left']), ('=', is_('=')), ('right', s['right'])]
    seq += [('c' + c, is_(c)) for c in CELLS] + [('.' + c, is_('.' + c)) for c in PORTNAMES] + [('.clk', Or(is_('.CLK'), is_('.RST'))), ('name', s['key'] != 0)]
    K_ = {}; none = T_
    for nm_, c in seq: K_[nm_] = And(none, c); none = And(none, Not(c))
    inw = lambda j: And(K_['in'], Not(BR(t)), is_(j)); err = Or(And(cell_, Not(complete)), And(K_['in'], Not(BR(t)), *[Not(is_(x)) for x in ['clk', 'rst'] + [q for q, _ in PORTS]]),
        And(K_['out'], Not(BR(t)), Not(is_('o')), Or(Not(is_('terminate')), s['bits'] != 0)))
    ax = [ERR(p) == err, n['fine'] == And(s['fine'], Not(err), t != plit('endmodule')),
          n['in'] == cases([(idle, F_), (K_['input'], T_)], s['in']), n['out'] == cases([(idle, F_), (K_['output'], T_)], s['out']), n['left'] == cases([(idle, F_), (K_['assign'], T_), (K_['left'], F_)], s['left']),
          n['right'] == cases([(idle, F_), (K_['='], T_), (K_['right'], F_)], s['right']), n['bits'] == cases([(idle, E), (And(Or(K_['in'], K_['out']), BR(t)), bits)], s['bits']),
          n['ty'] == cases([(semi, E)] + [(K_['c' + c], IntVal(j + 1)) for j, c in enumerate(CELLS)], s['ty']),
          n['key'] == cases([(semi, E)] + [(K_['.' + c], plit(c)) for c in PORTNAMES] + [(K_['.clk'], E), (And(K_['name'], BR(t)), E)], s['key']),
          n['osz'] == If(And(K_['out'], Not(BR(t)), is_('o')), width, s['osz']), n['term'] == Or(s['term'], And(K_['out'], Not(BR(t)), is_('terminate'), s['bits'] == 0))]
    for q, _ in PORTS: ax.append(n['sz_' + q] == If(inw(q), width, s['sz_' + q]))
    for c in PORTNAMES:
        h = And(K_['name'], s['key'] == plit(c)); old = If(s['has_' + c], s['at_' + c], E)
        ax += [n['has_' + c] == And(Not(cell_), Or(s['has_' + c], h)), n['at_' + c] == If(h, If(BR(t), TextModel.cat_(old, t), t), s['at_' + c])]
    fin = And(cell_, Not(err)); add = lambda w: sum([If(And(fin, c), IntVal(1), E) for l, c, *_ in em if l == w], E)
    ax += [n['ng'] == s['ng'] + add('g'), n['nd'] == s['nd'] + add('d'), n['na'] == s['na'] + If(K_['left'], IntVal(1), E)]
    for l, c, o, ty, a, b, z in em:
        i = s['n' + l] + o; ax.append(Implies(And(fin, c), And(G[l, 'ty'](i) == ty, G[l, 'in0'](i) == a, G[l, 'in1'](i) == b, G[l, 'out'](i) == z)))
    j = Int('aj'); ax += [Implies(K_['left'], AL(s['na']) == t), ForAll([j], AR(p + 1, j) == If(And(K_['left'], j == s['na']), E, If(And(K_['right'], j == s['na'] - 1), t, AR(p, j))), patterns=[AR(p + 1, j)])]
    return ax
class Parse(Contract):
    """ParseNetlist: the lists of names and the sizes are those of the reference reading of the tokens up to endmodule"""
    name = unit = 'ParseNetlist'; params = ('file', 'names')
    fname = Int('name_of_the_file')
    def ghost_init(self, ex): return dict(line=IntVal(0), pos=IntVal(0), open=BoolVal(False))
    def setup(self, ex, st, fn):
        self.ex = ex; ex.parse = self; self.K = consts(); mk = lambda n, t: Ptr(Region(n, t, ex.ival(1), 'param'), (ex.zero(),))
        f = mk('file', SS); PText(ex).set(st, f, self.fname); self.tokreg, self.wordreg, self.chr = mk('token', SS), mk('word', SS), mk('character', I(8)); self.rc = mk('names', RCS); self.roles = {}; self.flagreg = self.keyreg = self.mapreg = None
        self.file = f; return [f, self.rc]
    def N(self, st): return Names(self.ex, st, self.rc)
    def lists(self, st, q):
        """the lists and sizes are those of reference state q"""
        N = self.N(st); i = Int('pi'); f = FN; out = [('lists have the lengths read', And(N.ng == f['ng'](q), N.nd == f['nd'](q), N.na == f['na'](q)))]
        for nm_, n, L in (('gates', 'ng', [(N.gty, 'g', 'ty'), (lambda i: N.gin(i, IntVal(0)), 'g', 'in0'), (lambda i: N.gin(i, IntVal(1)), 'g', 'in1'), (N.gout, 'g', 'out')]), ('flip-flops', 'nd', [(N.dty, 'd', 'ty'), (lambda i: N.din(i, IntVal(0)), 'd', 'in0'), (lambda i: N.din(i, IntVal(1)), 'd', 'in1'), (N.dout, 'd', 'out')])):
            for g, w, x in L: out.append(('%s read so far (%s)' % (nm_, {'ty': 'type', 'in0': 'first input', 'in1': 'second input', 'out': 'output'}[x]), ForAll([i], Implies(And(i >= f[n](0), i < f[n](q)), g(i) == G[w, x](i)), patterns=[G[w, x](i)])))
        out += [('assignments read so far (left)', ForAll([i], Implies(And(i >= f['na'](0), i < f['na'](q)), N.al(i) == AL(i)), patterns=[AL(i)])), ('assignments read so far (right)', ForAll([i], Implies(And(i >= f['na'](0), i < f['na'](q)), N.ar(i) == AR(q, i)), patterns=[AR(q, i)]))]
        out += [('port sizes read so far', And(*[getattr(N, n) == f['sz_' + n](q) for n, _ in PORTS])), ('output size read so far', N.output == f['osz'](q)), ('terminate signal read so far', N.has_term == f['term'](q))]
        return out
    def axioms(self, k):
        p, l = Ints('sp sl'); N = self.N(k.old); f = FN; s0 = [('in', False), ('out', False), ('left', False), ('right', False), ('bits', 0), ('ty', 0), ('key', 0), ('fine', True)] + [('has_' + c, False) for c in PORTNAMES]
        out = [f[n](0) == v for n, v in s0] + [f['ng'](0) == N.ng, f['nd'](0) == N.nd, f['na'](0) == N.na, f['osz'](0) == N.output, f['term'](0) == N.has_term] + [f['sz_' + n](0) == getattr(N, n) for n, _ in PORTS]
        out += [ForAll([p], Implies(p >= 0, And(*step(p, self.K))), patterns=[T(p)]), ForAll([p], And(T(p) != 0, BR(T(p)) == (CHAR0(T(p)) == ord('['))), patterns=[T(p)])]
        out += [FIRST(0) == 0, ForAll([l], And(COUNT(l) >= 0, FIRST(l + 1) == FIRST(l) + COUNT(l)), patterns=[FIRST(l)])]
        x = Int('nx'); out += [ForAll([x], And(NUM(x) >= 0, NUM(x) < 2**31 - 1), patterns=[NUM(x)])]
        return out
    def pre(self, k): p = Int('sp'); N = self.N(k.old); return [('lists have lengths', And(N.ng >= 0, N.nd >= 0, N.na >= 0)), ('an equal sign follows the name assigned', ForAll([p], Implies(FN['right'](p), FN['na'](p) > FN['na'](0)), patterns=[FN['right'](p)]))]
    # ------------------------------------------------------------ roles of the locals
    def eval(self, t, tok, C):
        sub = []
        def walk(x, seen):
            if x.get_id() in seen: return
            seen.add(x.get_id())
            if is_app(x):
                if x.decl().eq(T): sub.append((x, plit(tok))); return
                if x.num_args() == 0 and x.decl().kind() == Z3_OP_UNINTERPRETED and x.decl().name().startswith('d_'): sub.append((x, BoolVal(False) if is_bool(x) else IntVal(0) if x.sort() == IntSort() else BitVecVal(0, x.sort()))); return
                for c in x.children(): walk(c, seen)
        if not isinstance(t, ExprRef): return None
        t = simplify(t); walk(t, set()); return simplify(substitute(t, *sub))
    def find(self, C):
        """which variable of the loop plays which part: read off what single tokens do to it"""
        key = (C.header,)
        if key in self.roles and self.mapreg is not None and self.keyreg is not None:
            self.enclosing(C, self.roles[key]); return self.roles[key]
        ex = self.ex; ph = C.fn.blocks[C.header].phis; R = {}; back = C.dry_back
        for r, tok in (('in', 'input'), ('out', 'output'), ('left', 'assign'), ('right', '='), ('ty', 'AND')):
            for p in ph:
                v = self.eval(back.phi[p.res], tok, C)
                if v is not None and (is_num(v) and v.as_long() != 0 or is_true(v)) and p.res not in R.values(): 
                    w = self.eval(back.phi[p.res], 'no_such_token', C)
                    if not w.eq(v): R[r] = p.res; break
        if 'in' in R:
            self.invalid = None
            rest = [p for p in ph if p.res not in R.values() and p.ty == L64]
            if len(rest) == 1: R['bits'] = rest[0].res
            for kk in C.wkeys:
                r, ty = ex.regions[kk]; z = (ex.zero(),) * r.dims
                if r.kind == 'alloca' and r.ety == SS and kk[1] == (TX,):
                    v = self.eval(back.mem[kk].read(*[z]), '.A', C)
                    if v is not None and v.eq(plit('A')): self.keyreg = r
                if r.kind == 'alloca' and ty == I(8) and kk[1] == () and r.ety == I(8): self.flagreg = r
                if r.kind == 'alloca' and kk[1] and kk[1][0] == HAS: self.mapreg = r
            self.roles[key] = R
            self.enclosing(C, R)
        return self.roles.get(key, {})
    def enclosing(self, C, R):
        """the variables of the enclosing loop are those this one starts from"""
        ex = self.ex
        if ex.loopstack and R:
            Rq = {}
            for r, n in R.items():
                v = C.phi0.get(n)
                if isinstance(v, ExprRef) and is_app(v) and v.num_args() == 0:
                    m = re.match(r'(?:d_|phi_)(.*)!\d+$', v.decl().name())
                    if m: Rq[r] = m.group(1)
            if Rq: self.roles.setdefault((ex.loopstack[-1]['header'],), Rq)
    def walks(self, C, r, lp):
        v = C.dry_back.mem.get((r.id, lp)); v = None if v is None else simplify(v.read((self.ex.zero(),) * r.dims))
        return v is not None and is_app(v) and v.decl().kind() == Z3_OP_ADD
    def named(self, st, n):
        v = self.ex.gget(st, n)
        if is_app(v) and v.num_args() == 0: return v
        x = self.ex.fresh(n, IntSort()); self.ex.axiom(st, x == v); return x
    def loop(self, C, k):
        ex = self.ex; R = self.find(C); st = C.cur; g = lambda n: ex.gget(st, n); pos, line = self.named(st, 'pos'), self.named(st, 'line'); f = FN; out = []; q = pos; flag = None
        if 'in' not in R or self.mapreg is None or self.keyreg is None: return []
        z = lambda r: (ex.zero(),) * r.dims; one_ = lambda v, b: v == If(b, IntVal(1), IntVal(0))
        if self.flagreg is not None and any(x[0] == self.flagreg.id for x in C.wkeys):
            get = lambda s: simplify(ex.getmem(s, self.flagreg, (), I(8)).read(z(self.flagreg)))
            flag = get(st); e = get(C.entry)
            if is_num(e) and e.as_long() == 0: q = ex.fresh('place', IntSort()); ex.axiom(st, q == If(flag == 1, pos + 1, pos)); out += [('flag', Or(flag == 0, flag == 1)), ('a token is being read', And(line > 0, pos < FIRST(line)))]; flag = None
        if flag is not None and not any('getline' in c for c in C.calls): out.append(('flag', Or(flag == 0, flag == 1)))
        its = [ex.getmem(st, r, lp, L64).read(z(r)) for (rid, lp) in sorted(C.wkeys, key=str) for r in [ex.regions[rid, lp][0]] if lp and lp[-1] == CONT and r.kind == 'alloca' and 'token_iterator' in str(r.ety) and self.walks(C, r, lp)]
        getsline = any('getline' in c for c in C.calls); eof = [p.res for p in C.fn.blocks[C.header].phis if p.ty == I(8) and p.res not in R.values()]
        if getsline: flag = None
        for r in ('in', 'out', 'left', 'right'):
            if r in R: out.append(('the reader is in the state the tokens lead to (%s)' % r, one_(C.phi[R[r]], f[r](q))))
        if 'bits' in R: out.append(('the width read last is the one of the declaration', And(C.phi[R['bits']] == f['bits'](q), f['bits'](q) >= 0, f['bits'](q) < 2**31)))
        if 'ty' in R: out.append(('the cell being read', And(f['ty'](q) >= 0, f['ty'](q) <= len(CELLS), C.phi[R['ty']] == cases([(f['ty'](q) == j + 1, IntVal(self.K['NOTGATE' if c == 'IV' else c + 'GATE'])) for j, c in enumerate(CELLS)], IntVal(self.K['INVALGATE'])))))
        if self.keyreg is not None: out.append(('the pin being read', And(ex.getmem(st, self.keyreg, (TX,), L64).read(z(self.keyreg)) == f['key'](q), Or(*[f['key'](q) == plit(c) for c in [''] + PORTNAMES]))))
        p = Ptr(self.mapreg, z(self.mapreg)); lp, ix = ex.leaf(cell(p, HAS)); H = ex.getmem(st, p.r, lp + ('*',), I(1)); lp, ix2 = ex.leaf(cell(p, SV)); W = ex.getmem(st, p.r, lp + ('*', TX), L64)
        for c in PORTNAMES: out.append(('connection of pin %s' % c, And(H.read(ix + (plit(c),)) == f['has_' + c](q), Implies(f['has_' + c](q), W.read(ix2 + (plit(c),)) == f['at_' + c](q)))))
        out += self.lists(st, q); out.append(('nothing wrong so far, and no endmodule', And(q >= 0, f['fine'](q))))
        out.append(('the file is open', g('open') == ex.gget(C.entry, 'open')))
        if getsline or flag is not None:
            done = Or(*[C.phi[x] == 1 for x in eof]); ended = T(pos) == plit('endmodule')
            out.append(('endmodule ends the reading', And(*[Or(C.phi[x] == 0, And(C.phi[x] == 1, ended)) for x in eof])))
            if getsline: out.append(('lines are read one after the other', And(line >= 0, Or(done, pos == FIRST(line)), Implies(line > 0, OPENS))))
            else: out.append(('tokens of this line', And(line > 0, pos >= FIRST(line - 1), pos <= FIRST(line), Or(done, flag == 1))))
        elif its:
            done = Or(*[C.phi[x] == 1 for x in eof]); ended = T(pos) == plit('endmodule'); out.append(('endmodule ends the reading', And(*[Or(C.phi[x] == 0, And(C.phi[x] == 1, ended)) for x in eof])))
            out += [('tokens of this line', And(line > 0, pos >= FIRST(line - 1), pos <= FIRST(line)))] + [('the iterator stands at the token read next', v == pos) for v in its]
        return out
    def mods(self, k):
        ex = self.ex; out = [('region', self.rc.r)]
        return out + [('region', x.r) for x in (self.file, self.tokreg, self.wordreg, self.chr)]
    def post(self, k):
        ex = self.ex; pos, line = self.named(k.new, 'pos'), self.named(k.new, 'line'); ok = k.result == 0; f = FN
        return [('reports success or failure', Or(ok, k.result == -1)), ('succeeds only at endmodule, with nothing wrong before', Implies(ok, And(T(pos) == plit('endmodule'), f['fine'](pos)))),
                ('fails only if the file cannot be read, ends before endmodule or has a statement that is wrong', Implies(k.result == -1, Or(Not(OPENS), ERR(pos), And(pos == FIRST(line), Not(GOOD(line))))))] + [(n, Implies(ok, x)) for n, x in self.lists(k.new, pos)]
def lem(name, hyps, goal):
    o = Obl(name, 'lemma', Facts(BoolVal(True)), list(hyps), goal); o.where = ''; return o
def cell_lemmas():
    """the gates a multiplexer, half adder and full adder stand for compute its function"""
    K = consts(); op = {K['XORGATE']: Xor, K['ANDGATE']: And}; out = []; V = {c: Bool('v_' + c) for c in PORTNAMES}
    for cellname, spec in (('MUX', {'F': If(V['SEL'], V['IN1'], V['IN0'])}), ('HADDER', {'SUM': Xor(V['IN0'], V['IN1']), 'COUT': And(V['IN0'], V['IN1'])}),
                           ('FADDER', {'SUM': Xor(V['CIN'], Xor(V['IN0'], V['IN1'])), 'COUT': Or(And(V['IN0'], V['IN1']), And(V['CIN'], Xor(V['IN0'], V['IN1'])))})):
        s = {n: Const('c_' + n, f.range()) for n, f in FN.items()}; s['ty'] = IntVal(CELLS.index(cellname) + 1); em, _ = emissions(s, K); val = {str(s['at_' + c]): V[c] for c in PORTNAMES if c not in spec}
        for l, c, o, ty, a, b, z in em:
            if l == 'g' and not is_false(simplify(c)) and is_num(ty) and ty.as_long() in op and str(a) in val and str(b) in val: val[str(z)] = op[ty.as_long()](val[str(a)], val[str(b)])
        for port, want in spec.items(): out.append(lem('the gates of %s give %s' % (cellname, port), [], val[str(s['at_' + port])] == want if str(s['at_' + port]) in val else BoolVal(False)))
    return out, []
