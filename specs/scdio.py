"""C13: the SCD file. Reading and writing decimal tokens are ghost operations on a token stream; ReadSCD and WriteSCD are verified against the file layout, and composed."""
from sched import *
from chan import *
TOK = Function('token', IntSort(), IntSort())
WIDTH = {'m': (0, 2**64), 'l': (-2**63, 2**63), 'i': (-2**31, 2**31), 'j': (0, 2**32), 's': (-2**15, 2**15), 't': (0, 2**16), 'x': (-2**63, 2**63), 'y': (0, 2**64)}
CT = {'m': 64, 'l': 64, 'i': 32, 'j': 32, 's': 16, 't': 16, 'x': 64, 'y': 64}
class StreamOp(Contract):
    trusted = True
    def __init__(self, name, op, reg): self.name, self.op, self.reg = name, op, reg
    def sep(self, bs):
        if not bs or any(b not in (32, 10, 9, 13) for b in bs): raise Unsupported('text %r written to the file' % bytes(bs))
    def apply(self, ex, st, a, tys, ats, ins):
        op = self.op
        if op[0] == 'nop': return None
        if op[0] == 'ctor': ex.oblige(st, 'call', 'one file is open at a time', ex.gget(st, 'ip') == 0); return None
        if op[0] == 'open?': return ex.fresh('opened', BoolSort())
        if op[0] == '>>':
            t = TOK(ex.gget(st, 'ip')); lo, hi = WIDTH[op[1]]
            ex.oblige(st, 'call', 'the token read fits its variable', And(t >= lo, t < hi))
            if lo == 0: ex.nn(t)
            ex.store(st, a[1], I(CT[op[1]]), t); ex.gset(st, 'ip', ex.simp(ex.gget(st, 'ip') + 1)); return a[0]
        if op[0] == '<<':
            n = ex.gget(st, 'ip')
            ex.oblige(st, 'call', 'numbers in the file are separated', ex.gget(st, 'sep'))
            ex.store(st, Ptr(self.reg.file, (n,)), L64, a[1]); ex.gset(st, 'ip', ex.simp(n + 1)); ex.gset(st, 'sep', BoolVal(False)); return a[0]
        if op[0] == 'text': self.sep(literal(ex, a[-1])); ex.gset(st, 'sep', BoolVal(True)); return a[0]
        if op[0] == 'char':
            c = simplify(a[-1])
            if not is_num(c): raise Unsupported('character written to the file')
            self.sep([c.as_long() & 255]); ex.gset(st, 'sep', BoolVal(True)); return a[0]
        if op[0] == 'manip':
            if not (isinstance(a[1], GlobP) and 'endl' in str(a[1].name)): raise Unsupported('stream manipulator %r' % (a[1],))
            ex.gset(st, 'sep', BoolVal(True)); return a[0]
        raise Unsupported(self.name)
def parse_stream(n):
    m = re.match(r'_ZNSirsER([mlijstxy])$', n)
    if m: return ('>>', m.group(1))
    m = re.match(r'_ZNSolsE([mlijstxy])$', n)
    if m: return ('<<', m.group(1))
    if re.match(r'_ZStlsISt11char_traitsIcEERSt13basic_ostreamIcT_ES5_PKc$', n): return ('text',)
    if re.match(r'_ZStlsISt11char_traitsIcEERSt13basic_ostreamIcT_ES5_c$', n) or n == '_ZNSo3putEc': return ('char',)
    if n == '_ZNSolsEPFRSoS_E': return ('manip',)
    if re.match(r'_ZNSt14basic_[io]fstreamIcSt11char_traitsIcEEC[12]E', n): return ('ctor',)
    if re.match(r'_ZNSt14basic_[io]fstreamIcSt11char_traitsIcEE(D[12]|5close|4open)E', n): return ('nop',)
    if re.match(r'_ZNKS?t?14basic_[io]fstreamIcSt11char_traitsIcEE7is_openEv', n) or re.match(r'_ZNK?St14basic_[io]fstreamIcSt11char_traitsIcEE7is_openEv', n): return ('open?',)
    if n == '_ZNSo5flushEv': return ('nop',)
    return None
class MemAlign(Contract):
    """posix_memalign: on success a fresh buffer of that many bytes"""
    name = 'posix_memalign'
    def apply(self, ex, st, a, tys, ats, ins):
        ex.store(st, a[0], PTR, ex.alloc(ex.cur_fr, ins, st, a[2])); r = ex.fresh('memalign', IntSort()); return r
class Errno(Contract):
    name = '__errno_location'
    def apply(self, ex, st, a, tys, ats, ins): return Ptr(Region('errno', I(32), ex.ival(1), 'heap'), (ex.zero(),))
class StrError(Contract):
    name = 'strerror'
    def apply(self, ex, st, a, tys, ats, ins): return ex.lib_val(PTR)
class ScdReg(SchedReg):
    ghost_pos = False
    def __init__(self): super().__init__(); self.file = Region('file', L64, None, 'param'); self.sc = {}
    def lookup(self, m):
        if m in self.sc: return self.sc[m]
        o = parse_stream(m)
        if o: self.sc[m] = StreamOp(m, o, self); return self.sc[m]
        return super().lookup(m)
    def external(self, ex, st, name, args, tys, ins):
        if re.match(r'_ZN(S[io]|K?S[io]|St\d+basic_[io])|_ZSt[lr]s', name): raise Unsupported('stream operation %s has no contract' % name)
        return super().external(ex, st, name, args, tys, ins)
class Layout:
    """positions of the tokens"""
    def __init__(self, gs, os, ds): self.gs, self.os, self.ds = gs, os, ds; self.in0 = IntVal(10); self.in1 = 10 + gs; self.ty = 10 + 2 * gs; self.out = 10 + 3 * gs; self.D = self.out + os; self.I = self.D + ds; self.end = self.I + ds
def holds(L, upto, fs):
    i = Int('ci'); out = []
    for f, (nm, n, base) in zip(fs, (('first inputs', L.gs, L.in0), ('second inputs', L.gs, L.in1), ('types', L.gs, L.ty), ('outputs', L.os, L.out), ('flip-flop data wires', L.ds, L.D), ('flip-flop initial values', L.ds, L.I))):
        if f is not None: out.append((nm, ForAll([i], Implies(And(i >= 0, i < n, base + i < upto), f(i) == TOK(base + i)))))
    return out
HDR = ['p_init', 'g_init', 'e_init', 'p_input', 'g_input', 'e_input', 'dff', 'output', 'terminate', 'gate']
GF = S('struct.GarbledGate')
class ReadScd(Contract):
    name = unit = 'ReadSCD'; params = ('file', 'gc')
    def ghost_init(self, ex): return dict(ip=IntVal(0), sep=BoolVal(True))
    def setup(self, ex, st, fn):
        self.ex = ex; self.gcr = Region('gc', GCT, ex.ival(1), 'param')
        for i in range(10): ex.nn(TOK(i))
        self.L = Layout(TOK(9), TOK(7), TOK(6))
        return [Handle(Int('file_name'), 'lib'), Ptr(self.gcr, (ex.zero(),))]
    def pre(self, k):
        t = Int('rt'); L = self.L
        return [('the header holds sizes', And(*[And(TOK(i) >= 0, TOK(i) < 2**31) for i in range(10)])), ('tokens are 64-bit numbers', ForAll([t], And(TOK(t) >= -2**62, TOK(t) < 2**62))),
                ('gate types are small numbers', ForAll([t], Implies(And(t >= L.ty, t < L.out), And(TOK(t) >= 0, TOK(t) < 64))))]
    def arr(self, st, f):
        b = self.ex.bounds; self.ex.bounds = False
        p = self.ex.load(st, fld(self.ex, Ptr(self.gcr, (self.ex.zero(),)), f), PTR); self.ex.bounds = b
        return p
    def at(self, st, p, ty, *path):
        """cell function of the array at p"""
        p = one(p)
        if not isinstance(p, Ptr): return None
        if p.r.ety is None: return None
        q = Ptr(p.r, p.idx, tuple(('f', x) for x in path)); lp, ix = self.ex.leaf(q); m = self.ex.getmem(st, p.r, lp, ty)
        return lambda i: m.read(ix[:-1] + (i,))
    def cells(self, st, upto):
        """every cell whose token lies before position upto holds it"""
        g = self.arr(st, 10)
        return holds(self.L, upto, [self.at(st, p, ty, *path) for p, ty, path in ((g, L64, (0,)), (g, L64, (1,)), (g, I(32), (3,)), (self.arr(st, 11), L64, ()), (self.arr(st, 12), L64, ()), (self.arr(st, 13), L64, ()))])
    def outs(self, st, n):
        i = Int('oi'); f = self.at(st, self.arr(st, 10), L64, 2)
        return [] if f is None else [('gate output numbers', ForAll([i], Implies(And(i >= 0, i < self.L.gs, i < n), f(i) == sum([TOK(x) for x in range(7)]) + i)))]
    def loop(self, C, k):
        if C.iv is None: return []
        st = C.cur; ex = self.ex; ip = ex.gget(st, 'ip'); ip0 = ex.gget(C.entry, 'ip')
        w = C.gw.get('ip') if hasattr(C, 'gw') else None
        g0 = one(self.arr(st, 10)); wout = isinstance(g0, Ptr) and any(x[0] == g0.r.id and 2 in x[1] for x in C.wkeys)
        return [('stream position', Or(ip == ip0 + C.iv - C.start) if self.reads(C) else ip == ip0)] + self.cells(st, ip) + self.outs(st, C.iv if wout else self.L.gs if self.done(C, g0) else IntVal(0))
    def reads(self, C): return any(parse_stream(x) and parse_stream(x)[0] == '>>' for x in C.calls)
    def done(self, C, g0):
        """the output numbers have been filled in before this loop"""
        for k in C.entry.mem:
            if isinstance(g0, Ptr) and k[0] == g0.r.id and 2 in k[1]: return True
        return False
    def mods(self, k): return [('region', self.gcr)]
    def post(self, k):
        ok = k.result != -1; L = self.L
        return [('reports success or failure', Or(k.result == 0, k.result == -1))] + [('header: ' + n, Implies(ok, peek(self.ex, k.new, Ptr(self.gcr, (self.ex.zero(),)), GCT, j) == TOK(j))) for j, n in enumerate(HDR)] + \
            [(n, Implies(ok, f)) for n, f in self.need(self.cells(k.new, L.end + 1), 6) + self.need(self.outs(k.new, L.gs), 1)] + \
            [('all tokens are read', Implies(ok, self.ex.gget(k.new, 'ip') == L.end))]
    def need(self, l, n):
        if len(l) != n: raise Unsupported('arrays of the circuit not found')
        return l
class WriteScd(Contract):
    name = unit = 'WriteSCD'; params = ('rc', 'file')
    def ghost_init(self, ex): return dict(ip=IntVal(0), sep=BoolVal(True))
    def __init__(self, reg): self.reg = reg
    def setup(self, ex, st, fn):
        self.ex = ex; return [Ptr(Region('circuit', RC, ex.ival(1), 'param'), (ex.zero(),)), Handle(Int('file_name'), 'lib')]
    def pre(self, k):
        c = Circ(self.ex, k.old, k.rc); i = Int('wi'); self.c = c
        return [('circuit well-formed', conj(c.wf()[:11] + [c.dffs.len == c.dff, c.outs.len == c.output, c.ts.len == c.gate, c.term >= 0])), ('schedule lists gates', ForAll([i], Implies(And(i >= 0, i < c.gate), And(c.ts.at(i) >= 0, c.ts.at(i) < c.gate))))]
    def expect(self, t):
        c = self.c; L = Layout(c.gate, c.output, c.dff); g = lambda t, b: c.ts.at(t - b); z = IntVal(0); o = IntVal(1)
        r = If(t < L.in1, c.gates.inp(g(t, L.in0), z), If(t < L.ty, c.gates.inp(g(t, L.in1), o), If(t < L.out, c.gates.type(g(t, L.ty)), If(t < L.D, c.outs.at(t - L.out), If(t < L.I, c.dffs.inp(t - L.D, z), c.dffs.inp(t - L.I, o))))))
        for j, v in reversed(list(enumerate([c.p_init, c.g_init, c.e_init, c.p_input, c.g_input, c.e_input, c.dff, c.output, c.term, c.gate]))): r = If(t == j, v, r)
        return r
    def written(self, st, n):
        t = Int('wt'); m = self.ex.getmem(st, self.reg.file, (), L64)
        return ForAll([t], Implies(And(t >= 0, t < n), m.read((t,)) == self.expect(t)))
    def loop(self, C, k):
        if C.iv is None: return []
        st = C.cur; ip = self.ex.gget(st, 'ip'); ip0 = self.ex.gget(C.entry, 'ip')
        return [('one number per turn', ip == ip0 + C.iv - C.start), ('tokens so far', self.written(st, ip)), ('separated', self.ex.gget(st, 'sep'))]
    def mods(self, k): return [('region', self.reg.file)]
    def post(self, k):
        c = self.c; L = Layout(c.gate, c.output, c.dff); ok = k.result == 0
        return [('reports success or failure', Or(k.result == 0, k.result == -1)), ('the file holds the layout\'s tokens', Implies(ok, self.written(k.new, L.end))), ('and nothing more', Implies(ok, self.ex.gget(k.new, 'ip') == L.end))]

class NS: pass
def roundtrip():
    """WriteSCD's postcondition, then ReadSCD's: the circuit read is the circuit written, gates in schedule order; with SortNetlist's, every gate comes after its inputs"""
    F = lambda n, a: Function('rt_' + n, *[IntSort()] * (a + 1)); c = NS()
    c.gates = NS(); c.gates.inp = F('inp', 2); c.gates.type = F('type', 1); c.gates.out = F('out', 1); c.dffs = NS(); c.dffs.inp = F('dinp', 2); c.outs = NS(); c.outs.at = F('outs', 1); c.ts = NS(); c.ts.at = F('ts', 1)
    for n in ('p_init', 'g_init', 'e_init', 'p_input', 'g_input', 'e_input', 'dff', 'output', 'gate', 'term'): setattr(c, n, Int('rt_' + n))
    W = WriteScd(None); W.c = c; R = ReadScd(); L = Layout(c.gate, c.output, c.dff); t, i = Ints('t i'); sizes = [c.p_init, c.g_init, c.e_init, c.p_input, c.g_input, c.e_input, c.dff, c.output, c.term, c.gate]
    wpost = ForAll([t], Implies(And(t >= 0, t < L.end), TOK(t) == W.expect(t))); pos = And(*[And(x >= 0, x < 2**31) for x in sizes])
    fs = [F(x, 1) for x in ('in0', 'in1', 'rtype', 'routs', 'D', 'I')]; RL = Layout(TOK(9), TOK(7), TOK(6)); out = F('gout', 1)
    rpost = [f for n, f in holds(RL, RL.end + 1, fs)] + [ForAll([i], Implies(And(i >= 0, i < TOK(9)), out(i) == sum([TOK(x) for x in range(7)]) + i))]
    H = [pos, wpost] + rpost; g = lambda n, f: ForAll([i], Implies(And(i >= 0, i < n), f)); B = sum(sizes[:7])
    sched = [ForAll([i], Implies(And(i >= 0, i < c.gate), And(c.ts.at(i) >= 0, c.ts.at(i) < c.gate, c.gates.out(c.ts.at(i)) == B + i))), ForAll([i, t], Implies(And(i >= 0, i < c.gate, t >= 0, t < 2), c.gates.inp(i, t) < c.gates.out(i)))]
    o = [lemma_obl('round trip: ' + n, H, f) for n, f in (
        ('sizes', And(*[TOK(j) == x for j, x in enumerate(sizes)])), ('gate inputs, in schedule order', g(c.gate, And(fs[0](i) == c.gates.inp(c.ts.at(i), 0), fs[1](i) == c.gates.inp(c.ts.at(i), 1)))), ('gate types, in schedule order', g(c.gate, fs[2](i) == c.gates.type(c.ts.at(i)))),
        ('outputs', g(c.output, fs[3](i) == c.outs.at(i))), ('flip-flop data wires and initial values', g(c.dff, And(fs[4](i) == c.dffs.inp(i, 0), fs[5](i) == c.dffs.inp(i, 1)))), ('gate output numbers', g(c.gate, out(i) == B + i)))]
    o.append(lemma_obl('after SortNetlist, every gate read comes after its inputs and carries its own number', H + sched, g(c.gate, And(fs[0](i) < out(i), fs[1](i) < out(i), out(i) == c.gates.out(c.ts.at(i))))))
    ty = ForAll([i], Implies(And(i >= 0, i < c.gate), And(c.gates.type(i) >= 0, c.gates.type(i) < 64)))
    o.append(lemma_obl('the file written satisfies ReadSCD\'s precondition on gate types', H + sched + [ty], ForAll([t], Implies(And(t >= RL.ty, t < RL.out), And(TOK(t) >= 0, TOK(t) < 64)))))
    return o, [cover('round trip hypotheses', H + sched + [ty])]
