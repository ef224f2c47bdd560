"""SendData / RecvData against POSIX read/write: exactly the len bytes, in order, whatever the kernel's partial transfers (C12)."""
from chan import *
from chan import Keep
class Errno(Contract):
    name = '__errno_location'
    def apply(self, ex, st, args, tys, ats, ins):
        r = getattr(ex, 'errno_r', None)
        if r is None: r = ex.errno_r = Region('errno', I(32), ex.ival(1), 'heap')
        return Ptr(r, (ex.zero(),))
class Strerror(Contract):
    name = 'strerror'
    def apply(self, ex, st, args, tys, ats, ins): return Handle(ex.fresh('strerror', IntSort()))
class RW(Contract):
    """write/read: returns -1, or 0 <= k <= n, having moved the first k bytes between the buffer and the stream"""
    def __init__(self, D, name): self.D = D; self.name = name
    def apply(self, ex, st, args, tys, ats, ins):
        D = self.D; fd, p, n = args[:3]; I8 = I(8)
        if len(args) > 3: ex.oblige(st, 'call', '%s without flags that change what is transferred' % self.name, Or(*[args[3] == f for f in (0, 0x4000, 0x100)]))   # 0, MSG_NOSIGNAL, MSG_WAITALL
        ex.oblige(st, 'call', '%s on the given socket' % self.name, fd == D.fd)
        ex.oblige(st, 'call', '%s stays inside the buffer' % self.name, And(n > 0, BoolVal(isinstance(p, Ptr) and p.r.id == D.buf.id), p.idx[-1] >= 0, p.idx[-1] + n <= D.len))
        pos = ex.gget(st, 'pos'); o = p.idx[-1]
        ex.oblige(st, 'call', 'transfers go on where the previous one ended', o == pos)
        k = ex.fresh('moved', IntSort()); ex.axiom(st, And(k >= -1, k <= n))
        mv = If(k > 0, k, IntVal(0))
        src, dst = (D.buf, D.wire) if D.send else (D.wire, D.buf)
        sm = ex.getmem(st, src, (), I8); dm = ex.getmem(st, dst, (), I8)
        so, do = (o, D.pos0 + pos) if D.send else (D.pos0 + pos, o)
        w = Where(lambda i: And(i >= do, i < do + mv), Base(lambda i: sm.read((simplify(i - do + so),))), dm)
        w.desc = [(('rng', do, simplify(do + mv)),)]
        ex.setmem(st, dst, (), I8, w)
        ex.gset(st, 'pos', pos + mv)
        ex.gset(st, 'failed', simplify(Or(ex.gget(st, 'failed'), k <= 0)))
        return k
class Sock(Contract):
    params = ('sock', 'var', 'len')
    def __init__(self, send): self.send = send; self.name = self.unit = 'SendData' if send else 'RecvData'
    def ghost_init(self, ex): return dict(pos=IntVal(0), failed=BoolVal(False))
    def setup(self, ex, st, fn):
        self.ex = ex; self.fd = Int('sock'); self.len = Int('len'); self.pos0 = Int('stream_position')
        self.buf = Region('buffer', I(8), If(self.len > 0, self.len, IntVal(0)), 'param'); self.wire = Region('stream', I(8), None, 'param')
        self.b0 = ex.getmem(st, self.buf, (), I(8)); self.w0 = ex.getmem(st, self.wire, (), I(8))
        return [self.fd, Ptr(self.buf, (ex.zero(),)), self.len]
    def mods(self, k): return [('region', self.wire if self.send else self.buf)]
    def state(self, st, upto):
        ex = self.ex; i = Int('qi'); out = []
        bm = ex.getmem(st, self.buf, (), I(8)); wm = ex.getmem(st, self.wire, (), I(8))
        out.append(('bytes transferred so far are the right ones, in order', ForAll([i], Implies(And(i >= 0, i < upto), wm.read((self.pos0 + i,)) == bm.read((i,))))))
        if self.send: out.append(('earlier bytes of the stream untouched', ForAll([i], Implies(Or(i < self.pos0, i >= self.pos0 + upto), wm.read((i,)) == self.w0.read((i,))))))
        else: out.append(('bytes of the buffer not yet received untouched', ForAll([i], Implies(Or(i < 0, i >= upto), bm.read((i,)) == self.b0.read((i,))))))
        return out
    def loop(self, C, k):
        ex = self.ex; st = C.cur; pos = ex.gget(st, 'pos')
        if not C.calls & {'read', 'write', 'send', 'recv'}: return []
        r = [('no failure so far', Not(ex.gget(st, 'failed'))), ('position in range', And(pos >= 0, pos < self.len) if self.dowhile(C) else And(pos >= 0, pos <= self.len))] + self.state(st, pos)
        for n, v0 in C.phi0.items():
            v = C.phi[n]
            if isinstance(v0, Ptr):
                if v0.r.id == self.buf.id: r.append(('cursor', v.idx[-1] == v0.idx[-1] + pos))
            elif isinstance(v0, ExprRef) and v0.sort() == IntSort():
                if is_true(simplify(v0 == 0)): r.append(('count so far', v == pos))
                elif is_true(simplify(v0 == self.len)): r.append(('count left', v == self.len - pos))
        return r
    def dowhile(self, C):
        """does the loop body start with the transfer (position strictly inside)?"""
        L = C.L; fn = C.fn
        t = fn.blocks[L['header']]
        return any(i.op == 'call' for i in t.ins) or not (t.ins[-1].op == 'br' and t.ins[-1].a.get('c') is not None)
    def post(self, k):
        ex = self.ex; st = k.new; pos = ex.gget(st, 'pos'); f = ex.gget(st, 'failed')
        return [('reports failure exactly when a transfer failed or the connection was closed', k.result == If(f, IntVal(-1), IntVal(0))),
                ('on success exactly len bytes were transferred', Implies(Not(f), pos == If(self.len > 0, self.len, IntVal(0))))] + \
               [('on success: ' + n, Implies(Not(f), g)) for n, g in self.state(st, If(self.len > 0, self.len, IntVal(0)))]
def sreg(D): return Registry().add(*[RW(D, n) for n in (('write', 'send') if D.send else ('read', 'recv'))], Errno(), Strerror(), Keep('SendData'), Keep('RecvData'))
