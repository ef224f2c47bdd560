"""The low-memory drivers keep the state the per-cycle contracts (cycle.GLow / cycle.ELow) assume: buffers of the right size, wire values and labels
carried from one cycle to the next untouched, secret inputs marked secret, no table left over from an earlier cycle, key schedule of the global key."""
from cycle import *
import driver
class LowMixin:
    noframes = dict(noframe=lambda r, d: r.ety == TT and d == 0)
    def setup(self, ex, st, fn):
        a = driver.Driver.setup(self, ex, st, fn); s = self.sz
        self.IN = ex.nn(s.p_init + s.g_init + s.e_init); self.SI = ex.nn(self.IN + s.p_input); self.DF = ex.nn(self.SI + s.g_input + s.e_input); self.G = ex.nn(self.DF + s.dff); self.WS = ex.nn(self.G + s.gate)
        self.V2 = Function('V2', IntSort(), IntSort(), IntSort()); self.W = [Function('W%d' % k, IntSort(), IntSort(), B128) for k in ((0, 1) if self.garbler else (0,))]
        c, w = Ints('c2 w2'); ex.axiom(st, ForAll([c, w], Implies(And(w >= self.SI, w < self.DF), self.V2(c, w) == -1), patterns=[self.V2(c, w)]))
        self.tabF = [Function('received_row%d' % x, IntSort(), IntSort(), B128) for x in (0, 1)]; self.tabG = Function('received_gid', IntSort(), IntSort(), IntSort())
        self.valr = self.wirer = self.tabr = None; self.gkey = self.args['key']
        return a
    def leaves(self): return ((0,), (1,)) if self.garbler else ((),)
    def carried(self, ex, st, c):
        """values and labels are those the previous cycle left"""
        w = Int('cw'); m = ex.getmem(st, self.valr, (), I(16)); h = And(w >= self.IN, w < self.WS); p = simplify(c - 1)
        ls = [ex.getmem(st, self.wirer, lp, VEC) for lp in self.leaves()]
        return [('wire values are those of the previous cycle', Or(c == 0, ForAll([w], Implies(h, m.read((w,)) == self.V2(p, w))))),
                ('wire labels are those of the previous cycle', Or(c == 0, And(*[ForAll([w], Implies(h, l.read((w,)) == f(p, w))) for l, f in zip(ls, self.W)]))),
                ('secret inputs are secret', ForAll([w], Implies(And(w >= self.SI, w < self.DF), m.read((w,)) == -1)))]
    def gids(self, ex, st, lo, hi):
        m = ex.getmem(st, self.tabr, (1,), I(32)); k = Int('gk'); return ForAll([k], Implies(And(k >= lo, k < hi), m.read((k,)) == -1))
    def at_call(self, ex, st, args, pos, c):
        s = self.sz; ob = lambda n, g: ex.oblige(st, 'call', n, g)
        def typed(n, ty, ln):
            p = args[pos[n]]
            if not isinstance(p, Ptr): raise Unsupported('buffer %s: %r' % (n, p))
            if p.r.ety is None: ex.set_type(p.r, ty)
            if p.r.ety != ty: raise Unsupported('buffer %s has elements of another type' % n)
            ob('buffer %s starts at its first element' % n, p.idx[-1] == 0)
            if p.r.length is not None: ob('buffer %s has room' % n, p.r.length >= ln)
            return p.r
        W = BP if self.garbler else VEC
        wr = typed('wires', W, self.WS); vr = typed('wires_val', I(16), self.WS); lr = typed('dff', W, s.dff); lv = typed('dffv', I(16), s.dff); fr = typed('fanout', I(32), s.gate); tr = typed('tables', TT, self.nxor)
        rs = [wr, vr, lr, lv, fr, tr] + ([typed('tables_temp', TT, self.nxor)] if self.garbler else [])
        ob('the buffers of a cycle are different arrays', BoolVal(len(set(id(r) for r in rs)) == len(rs)))
        self.valr, self.wirer, self.tabr = vr, wr, tr
        for n, g in self.carried(ex, st, c): ob('at the start of a cycle: ' + n, g)
        kp = args[pos['key']]
        ob('the AES key schedule is that of the global key', And(*[peek(ex, st, kp, KT, 0, i) == Function('schedule%d' % i, B128, B128)(self.gkey) for i in range(15)], peek(ex, st, kp, KT, 1) == Function('rounds', B128, IntSort())(self.gkey)))
        if not self.garbler:
            ob('at the start of a cycle: no table beyond those received', self.gids(ex, st, ex.gget(st, 'cnt'), self.nxor))
            k = Int('rk'); tm = [ex.getmem(st, tr, lp, ty) for lp, ty in (((0, '*'), VEC), ((1,), I(32)))]
            ob('at the start of a cycle: the tables are those received', ForAll([k], Implies(And(k >= 0, k < ex.gget(st, 'cnt')), And(tm[0].read((k, IntVal(0))) == self.tabF[0](c, k), tm[0].read((k, IntVal(1))) == self.tabF[1](c, k), tm[1].read((k,)) == self.tabG(c, k)))))
        # effect: what the contract of the cycle function promises
        inr = lambda i: And(i >= self.IN, i < self.WS)
        def put(r, lp, ty, f):
            old = ex.getmem(st, r, lp, ty); w = Where(lambda i: inr(i), Base(f), old); w.desc = [(('rng', self.IN, self.WS),)]; ex.setmem(st, r, lp, ty, w)
        put(vr, (), I(16), lambda i: self.V2(c, i))
        for lp, f in zip(self.leaves(), self.W): put(wr, lp, VEC, lambda i, f=f: f(c, i))
        if self.garbler:
            for lp, ty in (((0, '*'), VEC), ((1,), I(32))):
                f = ex.fresh_fn('tables', *([IntSort()] * len(lp)), ex.sort_of(ty)); ex.setmem(st, tr, lp, ty, Base(lambda *i, f=f: f(*i)))
        for r, lps, ty in ((lr, self.leaves(), VEC), (lv, ((),), I(16)), (fr, ((),), I(32))):
            for lp in lps:
                f = ex.fresh_fn('scratch', IntSort(), ex.sort_of(ty)); ex.setmem(st, r, lp, ty, Base(lambda *i, f=f: f(*i)))
    def loop(self, C, k):
        ex = self.ex; st = C.cur
        if C.iv is None: return []
        cyc = C.depth == 0 and any(n in C.calls for n in ('SendData', 'RecvData'))
        if cyc:
            out = driver.Driver.loop(self, C, k) + self.carried(ex, st, C.iv)
            if not self.garbler: out.append(('no table is left over', self.gids(ex, st, IntVal(0), self.nxor)))
            return out
        out = []
        for key in sorted(C.wkeys, key=str):
            r, ty = ex.regions[key]
            if r.kind != 'heap' or not (ty == I(16) or (r.ety == TT and key[1] == (1,))): continue
            m = ex.getmem(st, r, key[1], ty); w = Int('fw')
            for d in getattr(C, 'frames', {}).get(key, [] if r.ety != TT else [None]):
                e = d[-1] if d else None; ev = lambda y: y(C.iv) if callable(y) else y
                q = (C.start, C.iv) if d is None else (ev(e[1]), ev(e[2])) if e[0] == 'rng' else None
                if q: out.append(('initialised so far', ForAll([w], Implies(And(w >= q[0], w < q[1]), m.read((w,)) == -1))))
        return out
    def callees(self):
        cs = self.base.callees(self); D = self; P = 'Garble' if self.garbler else 'Evaluate'
        circ = [c for c in cs if c.name == P + 'LowMem'][0]
        names = 'gc p_init p_input init_labels input_labels tables_temp tables ntab R key cid fd wires wires_val dff dffv fanout tlab tval output_labels output_vals'.split() if self.garbler else \
            'gc p_init p_input init_labels input_labels tables ntab key cid fd wires wires_val dff dffv fanout tlab tval output_labels output_vals'.split()
        pos = {n: i for i, n in enumerate(names)}
        class Circ(Contract):
            name = circ.name
            def apply(s, ex, st, args, tys, ats, ins):
                D.at_call(ex, st, args, pos, args[pos['cid']]); return circ.apply(ex, st, args, tys, ats, ins)
        class Recv(driver.DRecv):
            def apply(s, ex, st, args, tys, ats, ins):
                fd, p, n = args; r = driver.DRecv.apply(s, ex, st, args, tys, ats, ins)
                if is_num(n) and n.as_long() == 8:
                    ex.axiom(st, Or(r == -1, ex.gget(st, 'cnt') >= 0)); return r     # an unsigned 64-bit count
                if not isinstance(p, Ptr): raise Unsupported('transfer')
                if p.r.ety is None: ex.set_type(p.r, TT)
                k = ex.gget(st, 'cnt'); c = ex.gget(st, 'cyc'); f = r == -1
                ex.oblige(st, 'bounds', 'the received tables fit the table buffer', And(p.idx[-1] == 0, Implies(k > 0, k <= p.r.length)))
                for lp, ty, g in (((0, '*'), VEC, lambda i, x: If(x == 0, D.tabF[0](c, i), D.tabF[1](c, i))), ((1,), I(32), lambda i: D.tabG(c, i))):
                    old = ex.getmem(st, p.r, lp, ty); w = Where(lambda i, *x: And(Not(f), i >= 0, i < k), Base(g), old); w.desc = [(('rng', IntVal(0), k),) + (('any',),) * (len(lp) - 1)]
                    ex.setmem(st, p.r, lp, ty, w)
                return r
        return [Circ() if c is circ else Recv(self) if isinstance(c, driver.DRecv) else KeySetup(self) if c.name == 'AESSetEncryptKey' else c for c in cs]
class GLowDrv(LowMixin, driver.GLow): base = driver.GLow
class ELowDrv(LowMixin, driver.ELow): base = driver.ELow
