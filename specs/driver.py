"""The four two-party drivers (Garble/EvaluateBN{High,Low}Mem): order of the protocol steps, termination, number of cycles.
Every callee is an event of the ghost trace; `ev(kind, T, c)`. The content of an event is the business of the callee's own contract."""
from chan import *
from chan import Keep
from term import GTerm, ETerm, Term
BP = S('struct.BlockPair')
ev = Function('ev', IntSort(), Trace, IntSort(), Trace)
KINDS = ['labels', 'initlabels', 'geninput', 'inputlabels', 'circuit', 'count', 'tables', 'output']
def E(kind, T, c): return ev(IntVal(KINDS.index(kind)), T, c)
ntab = Function('tables_of_cycle', IntSort(), IntSort())
tlabG = Function('terminate_label_of_cycle', IntSort(), BitVecSort(128)); tval = Function('terminate_value_of_cycle', IntSort(), IntSort())
cyc_out = Function('cycles_run', IntSort(), IntSort())

def same_ptr(a, b):
    if isinstance(a, PtrAlt):
        al = [x for c, x in a.alts if x is not UNDEFP and isinstance(x, Ptr)]
        if len(al) == 1: a = al[0]
    if isinstance(a, Ptr) and isinstance(b, Ptr):
        return a.r.id == b.r.id and len(a.idx) == len(b.idx) and all(simplify(x == y).eq(BoolVal(True)) for x, y in zip(a.idx, b.idx)) and a.path == b.path if hasattr(a, 'path') else a.r.id == b.r.id
    return a is b

class Ev(Contract):
    """a protocol step as one event; want = expected arguments (None = not checked), by position"""
    def __init__(self, D, name, kind=None, cpos=None, want=None, out=None, fails=True):
        self.D, self.name, self.kind, self.cpos, self.want, self.out, self.fails = D, name, kind, cpos, want or {}, out, fails
    def apply(self, ex, st, args, tys, ats, ins):
        D = self.D
        for i, w in self.want.items():
            w = D.arg(w) if isinstance(w, str) else w
            if isinstance(w, (Ptr, Handle)) or not hasattr(w, 'sort'): g = BoolVal(bool(same_ptr(args[i], w)) if not isinstance(w, Handle) else bool(isinstance(args[i], Handle) and args[i].t.eq(w.t)))
            else: g = args[i] == w
            ex.oblige(st, 'call', '%s is called with the right argument %d' % (self.name, i), g)
        c = args[self.cpos] if self.cpos is not None else IntVal(0)
        f = ex.fresh('io_fail', BoolSort()) if self.fails else BoolVal(False)
        if self.fails: fail_flag(ex, st, f)
        T = tget(ex, st)
        if self.cpos is not None: ex.gset(st, 'cyc', c)
        if self.kind: tset(ex, st, If(f, T, E(self.kind, T, c)))
        if self.out: self.out(ex, st, args, c, f)
        if not self.fails: return ex.havoc_val(ins.ty, 'ret') if ins.ty != ('void',) else None
        return If(f, IntVal(-1), IntVal(0))
class DSend(Contract):
    """bulk sends of the drivers: the table count, then exactly that many tables"""
    name = 'SendData'; snd = True
    def __init__(self, D): self.D = D
    def apply(self, ex, st, args, tys, ats, ins):
        fd, p, n = args; T = tget(ex, st); f = ex.fresh('io_fail', BoolSort()); fail_flag(ex, st, f)
        c = ex.gget(st, 'cyc')
        ty = ex.ptype(p) if isinstance(p, Ptr) and p.r.ety is not None else None
        if is_num(n) and n.as_long() == 8:
            if self.snd: ex.oblige(st, 'call', 'the number of tables sent is the number of tables produced', ex.load(st, p, I(64)) == ntab(c))
            else: ex.store(st, p, I(64), If(f, ex.fresh('partial', IntSort()), mi_(got(T))))
            if not self.snd: ex.gset(st, 'cnt', mi_(got(T)))
            tset(ex, st, If(f, T, E('count', T, c)))
        else:
            k = ntab(c) if self.snd else ex.gget(st, 'cnt')
            ex.oblige(st, 'call', 'exactly the announced tables are transferred', n == k * 48)
            if self.D.tables is not None: ex.oblige(st, 'call', 'the tables of the cycle are transferred', BoolVal(bool(same_ptr(p, self.D.tables))))
            tset(ex, st, If(f, T, E('tables', T, c)))
        return If(f, IntVal(-1), IntVal(0))
class DRecv(DSend): name = 'RecvData'; snd = False
class Plain(Contract):
    """callee without effect on the modelled state (its own contract is elsewhere)"""
    def __init__(self, name, ret=None): self.name, self.ret = name, ret
    def apply(self, ex, st, args, tys, ats, ins):
        if self.ret is not None: return self.ret
        return ex.havoc_val(ins.ty, 'ret') if ins.ty != ('void',) else None

TABT = S('struct.GarbledTable')
class Driver(Contract):
    """GarbleBNLowMem / EvaluateBNLowMem"""
    params = ('gc', 'p_init', 'p_input', 's_init', 's_input', 'cc', 'mask', 'period', 'mode', 'bn', 'R', 'key', 'noot', 'fd')
    garbler = True; high = False; nxor = Int('num_of_non_xor')
    def __init__(self):
        self.regs = {}; self.tables = None
    def ghost_init(self, ex): return dict(ghosts0(ex), cyc=IntVal(0), cnt=IntVal(0))
    def arg(self, n): return self.args[n]
    def setup(self, ex, st, fn):
        self.ex = ex; gc = circuit(ex); self.sz = Sizes(ex, st, gc); ex.axiom(st, self.sz.terminate_id >= 0); ex.nn(self.sz.terminate_id)
        self.names = [p for p in self.params if self.garbler or p != 'R']
        a = dict(gc=gc)
        for n in ('p_init', 'p_input', 's_init', 's_input', 'bn'): a[n] = bn_region(ex, n)[1]
        ccr = Region('clock_cycles', I(64), ex.ival(1), 'param'); a['cc'] = self.ccp = Ptr(ccr, (ex.zero(),))
        self.cc0 = peek(ex, st, self.ccp, I(64)); ex.nn(self.cc0); ex.axiom(st, self.cc0 >= 0)
        a['mask'] = Handle(Int('mask_string'))
        a['period'] = self.period = ex.nn(Int('terminate_period')); ex.axiom(st, self.period >= 0)
        a['mode'] = Int('output_mode'); a['R'] = BitVec('R', 128); a['key'] = BitVec('global_key', 128)
        a['noot'] = Bool('disable_OT'); a['fd'] = Int('connfd')
        for n in ('init_labels', 'input_labels', 'output_labels', 'output_vals'):
            r = Region(n, I(16) if n == 'output_vals' else VEC, None, 'param'); a[n] = Ptr(r, (ex.zero(),))
        self.args = a
        self.TD = Function('trace_' + self.name, IntSort(), Trace)
        ex.nn(self.nxor); ex.axiom(st, self.nxor >= 0)
        self.cur = None
        return [a[n] for n in self.names]
    # ---- specification of one cycle: (trace before) -> (trace after)
    def cycle(self, T, c):
        """the steps of a cycle, in order, up to and including the termination exchange; returns (trace, decision)"""
        if self.garbler: T = E('geninput', T, IntVal(0))
        T = E('inputlabels', T, c)
        if self.garbler: T = E('circuit', T, c); T = E('count', T, c); T = E('tables', T, c)
        else: T = E('count', T, c); T = E('tables', T, c); T = E('circuit', T, c)
        T = E('output', T, c)
        t = GTerm() if self.garbler else ETerm()
        checked = And(self.period != 0, self.sz.terminate_id > 0, c % self.period == 0)
        return If(checked, t.step(T, tval(c), tlabG(c)), T), And(checked, t.result(T, tval(c), tlabG(c)))
    def start(self): return E('initlabels', T0, IntVal(0))
    def loop(self, C, k):
        ex = self.ex; st = C.cur
        if C.iv is None or C.depth != 0: return []
        if not any(n in C.calls for n in ('SendData', 'RecvData')): return []
        c = C.iv; self.cur = c if C.stage != 'step' else self.cur
        if C.stage == 'step': ex.axiom(st, self.TD(c) == self.cycle(self.TD(simplify(c - 1)), simplify(c - 1))[0])
        j = Int('jt')
        return [('no failure so far', Not(ex.gget(st, 'failed'))), ('protocol steps in order', tget(ex, st) == self.TD(c)), ('cycle count unchanged', peek(ex, st, self.ccp, I(64)) == self.cc0),
                ('within the requested cycles', c <= self.cc0),
                ('no earlier cycle terminated', ForAll([j], Implies(And(j >= 0, j < c), Not(self.cycle(self.TD(j), j)[1]))))]
    def axioms(self, k): return [self.TD(0) == self.start()]
    def mods(self, k): return [('cell', self.ccp, I(64))] + [('region', self.args[n].r) for n in ('init_labels', 'input_labels', 'output_labels', 'output_vals', 'bn')]
    def lemmas(self, k):
        N = peek(self.ex, k.new, self.ccp, I(64))
        return [self.TD(N) == self.cycle(self.TD(N - 1), N - 1)[0]]
    def post(self, k):
        ex = self.ex; st = k.new; ok = k.result == 0; N = peek(ex, st, self.ccp, I(64)); T = tget(ex, st); j = Int('jp')
        last = self.cycle(self.TD(N - 1), N - 1)
        r = [('a failed exchange is reported', Implies(ex.gget(st, 'failed'), k.result == -1)), ('the result is success or failure', Or(k.result == 0, k.result == -1)),
                ('the protocol steps of the cycles run happened, in order', Implies(ok, T == If(self.cc0 == 0, self.start(), self.TD(N)))),
                ('the run stops at the first checked cycle whose terminate wire is true, else after all cycles', Implies(ok, And(N <= self.cc0, Implies(N < self.cc0, last[1])))),
                ('no earlier cycle terminated', Implies(ok, ForAll([j], Implies(And(j >= 0, j < N - 1), Not(self.cycle(self.TD(j), j)[1])))))]
        if self.garbler: r.append(('success unless an exchange failed', Implies(Not(ex.gget(st, 'failed')), ok)))
        return r
    # ---- callees
    def callees(self):
        P = 'Garble' if self.garbler else 'Evaluate'
        def alloc(ex, st, args, c, f):
            for i, n in enumerate(('init_labels', 'input_labels', 'output_labels', 'output_vals')): ex.store(st, args[i + 1], PTR, self.args[n])
        def circ(ex, st, args, c, f):
            n = fn_pos; ex.axiom(st, ntab(c) >= 0)
            ex.store(st, args[n['ntab']], I(64), ntab(c))
            if self.garbler: ex.store(st, ex.field(args[n['tlab']], BP, 0), VEC, tlabG(c))
            else: ex.store(st, args[n['tlab']], VEC, tlabG(c))
            ex.store(st, args[n['tval']], I(16), tval(c))
        names = 'gc p_init p_input init_labels input_labels tables_temp tables ntab R key cid fd wires wires_val dff dffv fanout tlab tval output_labels output_vals'.split() if self.garbler else \
            'gc p_init p_input init_labels input_labels tables ntab key cid fd wires wires_val dff dffv fanout tlab tval output_labels output_vals'.split()
        fn_pos = {n: i for i, n in enumerate(names)}
        W = lambda *ns: {i: n for i, n in enumerate(ns) if n}
        D = self
        class Circ(Ev):
            def apply(s, ex, st, args, tys, ats, ins):
                D.tables = args[fn_pos['tables']]
                return Ev.apply(s, ex, st, args, tys, ats, ins)
        cs = [Ev(self, P + 'AllocLabels', None, None, {0: 'gc', **({5: 'R'} if self.garbler else {})}, alloc),
              Ev(self, P + 'TransferInitLabels', 'initlabels', None, W('gc', 's_init', 'init_labels', 'noot', 'fd')),
              Ev(self, P + 'TransferInputLabels', 'inputlabels', 3, W('gc', 's_input', 'input_labels', None, 'noot', 'fd')),
              Circ(self, P + 'LowMem', 'circuit', fn_pos['cid'], {i: n for n, i in fn_pos.items() if n in ('gc', 'p_init', 'p_input', 'init_labels', 'input_labels', 'output_labels', 'output_vals', 'R', 'fd')}, circ, fails=False),
              Ev(self, P + 'TransferOutputLowMem', 'output', 3, W('gc', 'output_labels', 'output_vals', None, 'mode', 'mask', 'bn', 'fd')),
              Plain('NumOfNonXor', self.nxor), Plain('AESSetEncryptKey'), DSend(self), DRecv(self), GTerm(), ETerm(), CStr(CSTR), Keep(self.name)]
        if self.garbler:
            cs += [Ev(self, 'GarbleGneInitLabels', None, None, W('gc', 'init_labels', 'R')), Ev(self, 'GarbleGenInputLabels', 'geninput', None, W('gc', 'input_labels', 'R'))]
        return cs
class GLow(Driver): name = 'GarbleBNLowMem'
class ELow(Driver): name = 'EvaluateBNLowMem'; garbler = False
class High(Driver):
    """GarbleBNHighMem / EvaluateBNHighMem: labels, label transfer, circuit, then the outputs of exactly the cycles run"""
    high = True
    nrun = Int('cycles_run')
    def axioms(self, k): return [self.nrun >= 0, self.nrun <= self.cc0]
    def loop(self, C, k): return []
    def lemmas(self, k): return []
    def post(self, k):
        ex = self.ex; st = k.new; ok = k.result == 0
        T = E('output', E('circuit', E('labels', T0, self.cc0), IntVal(0)), self.nrun)
        return [('success unless an exchange failed', k.result == If(ex.gget(st, 'failed'), IntVal(-1), IntVal(0))),
                ('the protocol steps happened in order, the outputs are those of the cycles run', Implies(ok, tget(ex, st) == T)),
                ('the reported number of cycles is the number run', Implies(ok, peek(ex, st, self.ccp, I(64)) == self.nrun))]
    def callees(self):
        P = 'Garble' if self.garbler else 'Evaluate'; D = self
        W = lambda *ns: {i: n for i, n in enumerate(ns) if n}
        class CC(Ev):
            def apply(s, ex, st, args, tys, ats, ins):
                ex.oblige(st, 'call', '%s gets the requested number of cycles' % s.name, args[s.ccpos] == D.cc0)
                return Ev.apply(s, ex, st, args, tys, ats, ins)
        def alloc(ex, st, args, c, f):
            for i, n in enumerate(('init_labels', 'input_labels', 'output_labels', 'output_vals')): ex.store(st, args[i + 1], PTR, self.args[n])
        def circ(ex, st, args, c, f):
            p = args[7 if self.garbler else 6]
            ex.oblige(st, 'call', 'the circuit runs for the requested number of cycles', ex.load(st, p, I(64)) == D.cc0)
            ex.store(st, p, I(64), D.nrun)
        mk = CC(self, P + 'MakeLabels', None, None, {0: 'gc', **({5: 'R'} if self.garbler else {})}, alloc); mk.ccpos = 6 if self.garbler else 5
        tr = CC(self, P + 'TransferLabels', 'labels', 5, W('gc', 's_init', 'init_labels', 's_input', 'input_labels', None, 'noot', 'fd')); tr.ccpos = 5
        hm = Ev(self, P + 'HighMem', 'circuit', None, W('gc', 'p_init', 'p_input', 'init_labels', 'input_labels', 'key', *(['R'] if self.garbler else []), 'cc', 'period', 'fd', 'output_labels', 'output_vals'), circ)
        return [mk, tr, hm, Ev(self, P + 'TransferOutput', 'output', 3, W('gc', 'output_labels', 'output_vals', None, 'mask', 'mode', 'bn', 'fd')), Keep(self.name)]
class GHigh(High): name = 'GarbleBNHighMem'
class EHigh(High): name = 'EvaluateBNHighMem'; garbler = False
