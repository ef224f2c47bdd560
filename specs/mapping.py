"""C15: the mapping file. WriteMapping writes pairs of a name and a wire number; the file is a sequence of items separated by blanks or line ends."""
from netl import *
from bris import BText
import scdio
class MapReg(NetReg):
    text = BText
    def __init__(self):
        STL.__init__(self, BText); self.nc = {}; self.sc = {}; self.pt = S('struct.std::pair'); mk = lambda n, t: Region(n, t, None, 'param'); self.items, self.isname = mk('items', L64), mk('is_name', I(1))
    def lookup(self, m):
        if m not in self.sc:
            o = ('name',) if re.match(r'_ZStlsIcSt11char_traitsIcESaIcEERSt13basic_ostreamIT_T0_ES7_RKNSt7__cxx1112basic_stringIS4_S5_T1_EE$', m) else scdio.parse_stream(m)
            self.sc[m] = MapOut(m, o, self) if o else None
        if self.sc[m]: return self.sc[m]
        c = super().lookup(m)
        return c
    def external(self, ex, st, name, args, tys, ins):
        if re.match(r'_ZN(S[io]|K?S[io]|St\d+basic_[io])|_ZSt[lr]s', name): raise Unsupported('stream operation %s has no contract' % name)
        return super().external(ex, st, name, args, tys, ins)
class MapOut(Contract):
    trusted = True
    def __init__(self, name, op, reg): self.name, self.op, self.reg = name, op, reg
    def item(self, ex, st, v, name):
        n = ex.gget(st, 'ip'); ex.oblige(st, 'call', 'names and numbers in the file are separated', ex.gget(st, 'sep'))
        ex.store(st, Ptr(self.reg.items, (n,)), L64, v); ex.store(st, Ptr(self.reg.isname, (n,)), I(1), BoolVal(name)); ex.gset(st, 'ip', ex.simp(n + 1)); ex.gset(st, 'sep', BoolVal(False))
    def text(self, ex, st, bs):
        s = bytes(bs).decode('latin1')
        if s[:1].isspace(): ex.gset(st, 'sep', BoolVal(True))
        ws = s.split()
        for k, w in enumerate(ws):
            self.item(ex, st, lit(w), True)
            if k + 1 < len(ws) or s[-1].isspace(): ex.gset(st, 'sep', BoolVal(True))
    def apply(self, ex, st, a, tys, ats, ins):
        op = self.op
        if op[0] == 'nop': return None
        if op[0] == 'ctor':
            if len(a) > 1:
                t = a[1]; ok = isinstance(t, Ptr) and t.r is ex.mapping.file.r; ex.oblige(st, 'call', 'the file opened is the one named, once', And(BoolVal(ok), Not(ex.gget(st, 'made')))); ex.gset(st, 'made', BoolVal(True))
            return None
        if op[0] == 'open?': return And(ex.gget(st, 'made'), ex.mapping.opens)
        ex.oblige(st, 'call', 'the file is open when it is written', And(ex.gget(st, 'made'), ex.mapping.opens))
        if op[0] == 'name': self.item(ex, st, BText(ex).get(st, into(ex, one(a[1]))), True); return a[0]
        if op[0] == '<<': self.item(ex, st, a[1], False); return a[0]
        if op[0] == 'text': self.text(ex, st, literal(ex, a[-1])); return a[0]
        if op[0] == 'char':
            c = simplify(a[-1])
            if not is_num(c): raise Unsupported('character written to the file')
            self.text(ex, st, [c.as_long() & 255]); return a[0]
        if op[0] == 'manip':
            if not (isinstance(a[1], GlobP) and 'endl' in str(a[1].name)): raise Unsupported('stream manipulator %r' % (a[1],))
            ex.gset(st, 'sep', BoolVal(True)); return a[0]
        raise Unsupported(self.name)
class WriteMap(Contract):
    """WriteMapping: the names of flip-flops and of gates in schedule order, each with its wire number, and the terminate signal's"""
    name = unit = 'WriteMapping'; params = ('names', 'rc', 'file'); opens = Bool('the_mapping_file_can_be_written')
    def __init__(self, reg): self.reg = reg
    def ghost_init(self, ex): return dict(ip=IntVal(0), sep=BoolVal(True), made=BoolVal(False))
    def setup(self, ex, st, fn):
        self.ex = ex; ex.mapping = self; mk = lambda n, t: Ptr(Region(n, t, ex.ival(1), 'param'), (ex.zero(),)); self.rc, self.names, self.file = mk('circuit', RC), mk('names', RCS), mk('file', S('class.std::__cxx11::basic_string')); return [self.names, self.rc, self.file]
    def pre(self, k):
        c = self.c = Circ(self.ex, k.old, self.rc); self.N = Names(self.ex, k.old, self.names); i = Int('wi')
        return [('the lists have the lengths of the circuit', conj(c.wf()[:11] + [c.dffs.len == c.dff, c.ts.len == c.gate, self.N.nd == c.dff, self.N.ng == c.gate])), ('schedule lists gates', ForAll([i], Implies(And(i >= 0, i < c.gate), And(c.ts.at(i) >= 0, c.ts.at(i) < c.gate)), patterns=[c.ts.at(i)]))]
    def written(self, st, n):
        ex = self.ex; c, N = self.c, self.N; i = Int('mi'); v, t = ex.getmem(st, self.reg.items, (), L64), ex.getmem(st, self.reg.isname, (), I(1)); b = 2 * c.dff; e = b + 2 * c.gate; g = c.ts.at(i)
        return [('flip-flops by name and number', ForAll([i], Implies(And(i >= 0, i < c.dff), And(Implies(2 * i < n, And(v.read((2 * i,)) == N.dout(i), t.read((2 * i,)))), Implies(2 * i + 1 < n, And(v.read((2 * i + 1,)) == c.dffs.out(i), Not(t.read((2 * i + 1,))))))))),
                ('gates in schedule order by name and number', ForAll([i], Implies(And(i >= 0, i < c.gate), And(Implies(b + 2 * i < n, And(v.read((b + 2 * i,)) == N.gout(g), t.read((b + 2 * i,)))), Implies(b + 2 * i + 1 < n, And(v.read((b + 2 * i + 1,)) == c.gates.out(g), Not(t.read((b + 2 * i + 1,))))))))),
                ('the terminate signal and its number', And(Implies(e < n, And(v.read((e,)) == lit('terminate'), t.read((e,)))), Implies(e + 1 < n, And(v.read((e + 1,)) == c.term, Not(t.read((e + 1,)))))))]
    def loop(self, C, k):
        if C.iv is None: return []
        st = C.cur; ex = self.ex; ip = ex.gget(st, 'ip'); ip0 = ex.gget(C.entry, 'ip')
        return [('one pair per turn', ip == ip0 + 2 * (C.iv - C.start)), ('separated', ex.gget(st, 'sep'))] + [(n + ' so far', f) for n, f in self.written(st, ip)]
    def mods(self, k): return [('region', self.reg.items), ('region', self.reg.isname)]
    def post(self, k):
        ex = self.ex; c = self.c; ok = k.result == 0
        return [('succeeds exactly if the file can be written', k.result == If(self.opens, IntVal(0), IntVal(-1))), ('every flip-flop and gate, the terminate signal, and nothing more', Implies(ok, ex.gget(k.new, 'ip') == 2 * c.dff + 2 * c.gate + 2))] + [(n, Implies(ok, f)) for n, f in self.written(k.new, 2 * c.dff + 2 * c.gate + 2)]
