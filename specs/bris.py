"""C15: from the text of a Bristol circuit to lists of names. The file is a sequence of numbers and words; ParseBrisNetlist against the format's own layout."""
from netl import *
from filehex import OPENS
from parse import consts
NUMBER = Function('number_in_file', IntSort(), IntSort()); WORDAT = Function('word_in_file', IntSort(), IntSort()); PG = Function('line_of_gate_starts_at', IntSort(), IntSort())
class BText(NText):
    cstr_ok = True
    def eqlit(self, t, bs): return t == self.lit(bs)
class BFile(Contract):
    """reading from a stream: the next number or word of the file"""
    trusted = True
    def __init__(self, name, op): self.name, self.op = name, op
    def apply(self, ex, st, a, tys, ats, ins):
        op = self.op; M = BText(ex); n = ex.gget(st, 'ip')
        if op == 'nop': return None
        if op == 'ctor':
            return None
        if op in ('ctors', 'ctorc', 'opens', 'openc'):
            t = M.get(st, into(ex, one(a[1]))) if op.endswith('s') else M.cstr(st, a[1]); ex.oblige(st, 'call', 'the file opened is the one named', And(t == ex.bris.fname, Not(ex.gget(st, 'open')))); ex.gset(st, 'open', BoolVal(True)); return None
        if op == 'good': ex.oblige(st, 'call', 'the stream is asked before anything is read', n == 0); return And(ex.gget(st, 'open'), OPENS)
        if op == 'bad': ex.oblige(st, 'call', 'the stream is asked before anything is read', n == 0); return Not(And(ex.gget(st, 'open'), OPENS))
        ex.oblige(st, 'call', 'the file is open when it is read', And(ex.gget(st, 'open'), OPENS))
        if op == 'number': v = NUMBER(n); ex.nn(v); ex.store(st, a[1], L64, v)
        elif op == 'word': M.set(st, a[1], WORDAT(n))
        else: raise Unsupported('stream operation %s has no contract' % self.name)
        ex.gset(st, 'ip', ex.simp(n + 1)); return a[0]
def parse_bfile(n):
    if re.match(r'_ZNSirsER[my]$', n): return 'number'
    if re.match(r'_ZStrsIcSt11char_traitsIcESaIcEERSt13basic_istreamIT_T0_ES7_RNSt7__cxx1112basic_stringIS4_S5_T1_EE$', n): return 'word'
    m = re.match(r'_ZNSt14basic_ifstreamIcSt11char_traitsIcEE(.*)$', n)
    if m:
        for pat, op in ((r'C[12]Ev$', 'ctor'), (r'C[12]E(RKNSt7__cxx11|RKNS).*', 'ctors'), (r'C[12]EPKc', 'ctorc'), (r'4openE(RKNSt7__cxx11|RKNS)', 'opens'), (r'4openEPKc', 'openc'), (r'(D[012]|5close)Ev', 'nop')):
            if re.match(pat, m.group(1)): return op
        return '?'
    if re.match(r'_ZNKSt9basic_iosIcSt11char_traitsIcEE(4goodEv|cvbEv)$', n) or re.match(r'_ZNK?St14basic_ifstreamIcSt11char_traitsIcEE7is_openEv$', n): return 'good'
    if re.match(r'_ZNKSt9basic_iosIcSt11char_traitsIcEE(4failEv|ntEv|3badEv)$', n): return 'bad'
    if re.match(r'_ZNSi|_ZStrs', n): return '?'
    return None
class BrisReg(NetReg):
    text = BText
    def __init__(self): STL.__init__(self, BText); self.nc = {}; self.pc = {}; self.pt = S('struct.std::pair')
    def lookup(self, m):
        if m not in self.pc: o = parse_bfile(m); self.pc[m] = BFile(m, o) if o else None
        return self.pc[m] or super().lookup(m)
class ParseBris(Contract):
    """ParseBrisNetlist: gate i is line i of the file; wires are called by the input bit, output bit or number they are"""
    name = unit = 'ParseBrisNetlist'; params = ('file', 'names'); fname = Int('name_of_the_file')
    def ghost_init(self, ex): return dict(ip=IntVal(0), open=BoolVal(False))
    def setup(self, ex, st, fn):
        self.ex = ex; ex.bris = self; self.K = consts(); mk = lambda n, t: Ptr(Region(n, t, ex.ival(1), 'param'), (ex.zero(),))
        f = mk('file', S('class.std::__cxx11::basic_string')); BText(ex).set(st, f, self.fname); self.rc = mk('names', RCS); self.file = f
        self.G, self.W, self.gi, self.ei, self.out = (NUMBER(i) for i in range(5)); i = Int('bi')
        for x in (self.G, self.W, self.gi, self.ei, self.out): ex.nn(x)
        return [f, self.rc]
    def start(self, g): return PG(g)
    def fields(self, g):
        s = PG(g); n = NUMBER(s); return n, NUMBER(s + 2), NUMBER(s + 3), If(n == 1, NUMBER(s + 3), NUMBER(s + 4)), If(n == 1, WORDAT(s + 4), WORDAT(s + 5))
    def called(self, w):
        return If(w < self.gi, nm(lit('g_input'), w), If(w < self.gi + self.ei, nm(lit('e_input'), w - self.gi), If(w >= self.W - self.out, nm(lit('o'), w - (self.W - self.out)), TextModel.cat_(lit('w'), dec(w)))))
    def typ(self, t): return If(t == lit('INV'), IntVal(self.K['NOTGATE']), If(t == lit('XOR'), IntVal(self.K['XORGATE']), IntVal(self.K['ANDGATE'])))
    def known(self, t): return Or(t == lit('INV'), t == lit('XOR'), t == lit('AND'))
    def N(self, st): return Names(self.ex, st, self.rc)
    def axioms(self, k):
        g = Int('bg'); ks = [lit(x) for x in ('INV', 'XOR', 'AND')]
        return [PG(0) == 5, ForAll([g], PG(g + 1) == PG(g) + 4 + NUMBER(PG(g)), patterns=[PG(g + 1)]), ForAll([g], PG(g + 1) == PG(g) + 4 + NUMBER(PG(g)), patterns=[NUMBER(PG(g))]), Distinct(*ks)]
    def pre(self, k):
        g, p = Ints('bg bp'); N = self.N(k.old)
        return [('the lists are empty', And(N.ng == 0, N.nd == 0)), ('sizes', And(self.G < 2**31, self.W < 2**31, self.gi < 2**31, self.ei < 2**31, self.out < 2**31, self.gi + self.ei + self.out <= self.W)), ('numbers are not negative', ForAll([p], And(NUMBER(p) >= 0, NUMBER(p) < 2**31), patterns=[NUMBER(p)])),
                ('a gate has one or two inputs', ForAll([g], Or(NUMBER(PG(g)) == 1, NUMBER(PG(g)) == 2), patterns=[NUMBER(PG(g))]))]
    def gates(self, st, upto):
        N = self.N(st); i = Int('gi_'); n, a, b, o, t = self.fields(i); r = And(i >= 0, i < upto)
        return [('gate lines read so far (%s)' % w, FA([i], Implies(r, x == y), patterns=[x])) for w, x, y in (('first input', N.gin(i, IntVal(0)), self.called(a)), ('second input', N.gin(i, IntVal(1)), If(n == 1, lit(''), self.called(b))), ('output', N.gout(i), self.called(o)), ('type', N.gty(i), self.typ(t)))] + [('every type read so far is known', ForAll([i], Implies(r, self.known(t)), patterns=[PG(i)]))]
    def header(self, st): N = self.N(st); return And(N.g_input == self.gi, N.e_input == self.ei, N.output == self.out)
    def loop(self, C, k):
        if C.iv is None: return []
        ex = self.ex; st = C.cur; d = C.iv - C.start; ex.axiom(st, PG(d) == PG(d))
        return [('lines are read one after the other', ex.gget(st, 'ip') == PG(d)), ('the file is open', ex.gget(st, 'open')), ('one gate per line', self.N(st).ng == d), ('sizes are those of the header', self.header(st))] + self.gates(st, d)
    def mods(self, k): return [('region', self.rc.r), ('region', self.file.r)]
    def post(self, k):
        N = self.N(k.new); M = self.N(k.old); ok = k.result == 0; i = Int('gi_'); same = [getattr(N, n) == getattr(M, n) for n in ('p_init', 'g_init', 'e_init', 'p_input')]; t = self.fields(N.ng)[4]
        return [('reports success or failure', Or(ok, k.result == -1)), ('fails only if the file cannot be read, announces no gates or wires or has a gate of an unknown type', Implies(k.result == -1, Or(Not(OPENS), self.G == 0, self.W == 0, And(N.ng < self.G, Not(self.known(t)))))),
                ('succeeds only on a file that announces gates and wires', Implies(ok, And(OPENS, self.G != 0, self.W != 0))), ('one gate per line, no flip-flops', Implies(ok, And(N.ng == self.G, N.nd == 0))), ('sizes are those of the header', Implies(ok, And(self.header(k.new), *same, N.has_term == M.has_term)))] + [(n, Implies(ok, x)) for n, x in self.gates(k.new, self.G)]
