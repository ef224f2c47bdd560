"""C17: a number given on the command line is the text itself or, if it names a file, the lines of that file, the last line first."""
from stl import *
LINE = Function('line_of_the_file', IntSort(), IntSort()); NLINES = Int('lines_in_the_file'); OPENS = Bool('the_file_can_be_opened'); REV = Function('lines_last_first', IntSort(), IntSort())
SS = S('class.std::__cxx11::basic_string')
IF = r'_ZN(K?)St14basic_ifstreamIcSt11char_traitsIcEE'
class FileOp(Contract):
    trusted = True
    def __init__(self, name, op): self.name, self.op = name, op
    def file(self, ex, st, p):
        M = TextModel(ex); t = M.get(st, p) if self.op.endswith('s') else M.cstr(st, p)
        ex.oblige(st, 'call', 'the file opened is the one named', t == ex.gget(st, 'asked')); ex.gset(st, 'open', OPENS)
    def apply(self, ex, st, a, tys, ats, ins):
        op = self.op
        if op == 'nop': return None
        if op == 'ctor': ex.gset(st, 'open', BoolVal(False)); ex.gset(st, 'ok', BoolVal(True)); return None
        if op[:4] in ('open', 'ctor'): ex.gset(st, 'ok', OPENS); self.file(ex, st, a[1]); return None
        if op == 'is_open': return ex.gget(st, 'open')
        if op == 'close': ex.gset(st, 'open', BoolVal(False)); return None
        n = ex.gget(st, 'line'); g = And(ex.gget(st, 'open'), ex.gget(st, 'ok'))
        if op == 'getline':
            more = And(g, n < NLINES); TextModel(ex).set(st, a[1], ite(simplify(more), LINE(n), TextModel.EMPTY)); ex.gset(st, 'line', ex.simp(If(more, n + 1, n))); ex.gset(st, 'ok', ex.simp(more)); return a[0]
        if op == 'bool': return ex.gget(st, 'ok')
        if op == 'not': return Not(ex.gget(st, 'ok'))
        raise Unsupported('stream operation %s has no contract' % self.name)
def parse_file(n):
    m = re.match(IF + r'(.*)$', n) or re.match(r'_ZNK?(S?)t14basic_ifstreamIcSt11char_traitsIcEE(.*)$', n)
    if m:
        t = m.group(2)
        for pat, op in ((r'C[12]Ev$', 'ctor'), (r'D[12]Ev$', 'nop'), (r'C[12]ERKNSt7__cxx1112basic_string.*$', 'ctors'), (r'C[12]EPKcSt13_Ios_Openmode$', 'ctorc'), (r'4openERKNSt7__cxx1112basic_string.*$', 'opens'), (r'4openEPKcSt13_Ios_Openmode$', 'openc'), (r'7is_openEv$', 'is_open'), (r'5closeEv$', 'close')):
            if re.match(pat, t): return op
        return '?'
    if re.match(r'_ZSt7getlineIcSt11char_traitsIcESaIcEERSt13basic_istreamIT_T0_ES7_RNSt7__cxx1112basic_stringIS4_S5_T1_EE$', n): return 'getline'
    m = re.match(r'_ZNKSt9basic_iosIcSt11char_traitsIcEE(.*)$', n)
    if m: return {'cvbEv': 'bool', 'ntEv': 'not', '4failEv': 'not', '4goodEv': 'bool'}.get(m.group(1), '?')
    return None
class FileReg(STL):
    def __init__(self): super().__init__(TextModel); self.fc = {}
    def lookup(self, m):
        if m not in self.fc: o = parse_file(m); self.fc[m] = o and FileOp(m, o)
        return self.fc[m] or super().lookup(m)
class ReadFileHex(Contract):
    name = unit = 'ReadFileOrPassHex'; params = ('ret', 'file')
    def ghost_init(self, ex): return dict(asked=self.t, line=IntVal(0), open=BoolVal(False), ok=BoolVal(True))
    t = Int('text_given')
    def setup(self, ex, st, fn):
        self.ex = ex; mk = lambda n: Ptr(Region(n, SS, ex.ival(1), 'param'), (ex.zero(),)); a = [mk('result'), mk('file')]; self.a = a
        TextModel(ex).set(st, a[1], self.t); return a
    def pre(self, k): return [('a file has lines', NLINES >= 0)]
    def axioms(self, k):
        i = Int('fi'); return TextModel.axioms() + [REV(0) == TextModel.EMPTY, ForAll([i], Implies(i >= 0, REV(i + 1) == TextModel.cat_(LINE(i), REV(i))), patterns=[LINE(i)])]
    def loop(self, C, k):
        ex = self.ex; n = ex.gget(C.cur, 'line'); M = TextModel(ex); out = [('lines read', And(n >= 0, n <= NLINES)), ('the file stays open', ex.gget(C.cur, 'open') == ex.gget(C.entry, 'open')), ('every line so far was read', ex.gget(C.cur, 'ok'))]
        for kk in C.wkeys:
            r, ty = ex.regions[kk]
            if r.ety == SS and kk[1] == (TX,):
                p = Ptr(r, (ex.zero(),) * r.dims)
                if 'text_cat' in names(simplify(M.get(C.dry_back, p))): out.append(('the lines so far, the last one first', M.get(C.cur, p) == REV(n)))
        return out
    def mods(self, k): return [('region', a.r) for a in self.a]
    def post(self, k):
        t = TextModel(self.ex).get(k.new, self.a[0])
        return [('a text that names no file is the number itself', Implies(Not(OPENS), t == self.t)), ('the number in a file is its lines, the last one first', Implies(OPENS, t == REV(NLINES)))]
def names(t, out=None, seen=None):
    out = set() if out is None else out; seen = set() if seen is None else seen
    if t.get_id() in seen: return out
    seen.add(t.get_id())
    if is_app(t):
        out.add(t.decl().name())
        for c in t.children(): names(c, out, seen)
    return out
