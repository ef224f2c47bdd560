"""GarbleStr / EvaluateStr: the secret offset, the shared key, and which inputs, mode and parameters reach the protocol (bit-vector mode)."""
from chan import *
from chan import Keep
B128 = BitVecSort(128); B64 = BitVecSort(64); B32 = BitVecSort(32)
parsed = Function('parsed_value', IntSort(), IntSort(), B64, B64, B64, IntSort(), IntSort())   # (init str, input str, init size, input size, cycles, which)
result_of = Function('protocol_result', B32, IntSort())
class TC(Contract):
    def __init__(self, D, name): self.D, self.name = D, name
    def need(self, ex, st, what, g): ex.oblige(st, 'call', '%s: %s' % (self.name, what), g)
    def fail(self, ex, st):
        f = ex.fresh('callee_fails', BoolSort()); fail_flag(ex, st, f); return f
    def rc(self, f): return If(f, BitVecVal(-1, 32), BitVecVal(0, 32))
    def hd(self, a, want): return BoolVal(False) if not isinstance(a, Handle) else a.t == (want.t if isinstance(want, Handle) else want)
class TRead(TC):
    def apply(self, ex, st, args, tys, ats, ins):
        self.need(ex, st, 'reads the requested circuit', self.hd(args[0], self.D.scd))
        p = args[1]; self.D.gc = p
        for n, i in GCF.items(): ex.store(st, ex.gep(p, GCT, [BitVecVal(0, 64), BitVecVal(i, 32)]), I(64), self.D.fld(n))
        return self.rc(self.fail(ex, st))
class TFan(TC):
    def apply(self, ex, st, args, tys, ats, ins):
        self.need(ex, st, 'fan-outs of the circuit read', self.D.isgc(args[0])); return self.rc(self.fail(ex, st))
class TRnd(TC):
    def apply(self, ex, st, args, tys, ats, ins):
        k = ex.gget(st, 'draws'); ex.gset(st, 'draws', k + 1); return self.D.rnd(k)
class TNew(TC):
    def apply(self, ex, st, args, tys, ats, ins):
        k = self.D.nbn; self.D.nbn += 1
        return Handle(IntVal(1000 + k))
class TParse(TC):
    def apply(self, ex, st, args, tys, ats, ins):
        s1, s2, n1, n2, cc, q1, q2 = args
        for w, q in enumerate((q1, q2)):
            h = ex.load(st, q, PTR)
            if not isinstance(h, Handle) or not is_num(simplify(h.t)): raise Unsupported('ParseInitInputStr target')
            ex.gset(st, 'bn%d' % simplify(h.t).as_long(), parsed(s1.t, s2.t, n1, n2, cc, w))
        return self.rc(self.fail(ex, st))
class TKey(TC):
    def apply(self, ex, st, args, tys, ats, ins):
        D = self.D; fd, p, n = args
        self.need(ex, st, 'exactly one message, the 16-byte key', And(ex.gget(st, 'keys') == 0, n == 16)); self.need(ex, st, 'on the connection', fd == D.fd)
        f = self.fail(ex, st)
        if D.garbler: ex.gset(st, 'key', ex.load(st, p, VEC))
        else: ex.store(st, p, VEC, If(f, ex.fresh('partial', B128), D.peer_key))
        ex.gset(st, 'keys', ex.gget(st, 'keys') + 1)
        return self.rc(f)
class TProt(TC):
    def apply(self, ex, st, args, tys, ats, ins):
        D = self.D; low = 'LowMem' in self.name; a = list(args)
        gc, pi, pn, si, sn, cc, mask, per, mode, bn = a[:10]; R = a[10] if D.garbler else None; key, noot, fd = a[-3:]
        self.need(ex, st, 'low-memory protocol exactly when asked for and more than one cycle is run', (And(D.lowmem, UGT(D.cc, 1))) == BoolVal(low))
        self.need(ex, st, 'the circuit is the one read', D.isgc(gc))
        f = lambda n: D.fld(n); o = 'g' if D.garbler else 'e'
        for nm, h, s, w in (('public initial values', pi, 'p', 0), ('public inputs', pn, 'p', 1), ('own initial values', si, o, 0), ('own inputs', sn, o, 1)):
            i_, n_ = (D.pi, D.pn) if s == 'p' else (D.si, D.sn)
            h = simplify(h.t) if isinstance(h, Handle) else None
            g = ex.gget(st, 'bn%d' % h.as_long()) if h is not None and is_num(h) else IntVal(-1)
            self.need(ex, st, nm + ' are the parsed ones', g == parsed(i_.t, n_.t, f(s + '_init'), f(s + '_input'), D.cc, w))
        self.need(ex, st, 'requested number of cycles', ex.load(st, cc, I(64)) == D.cc)
        self.need(ex, st, 'output mask, mode and period', And(self.hd(mask, D.mask), mode == D.mode, per == D.period))
        self.need(ex, st, 'OT choice and connection', And(noot == D.noot, fd == D.fd))
        self.need(ex, st, 'the shared key: the garbler\'s random key, sent and received once', And(ex.gget(st, 'keys') == 1, key == (ex.gget(st, 'key') if D.garbler else D.peer_key)))
        if D.garbler:
            n = ex.gget(st, 'draws'); one = BitVecVal(1, 128)
            i, j = Ints('di dj')
            self.need(ex, st, 'the colour bit of the offset is 1', Extract(0, 0, R) == 1)
            self.need(ex, st, 'offset and key come from two different random draws', Or(*[And(n > i, n > j, (R | one) == (D.rnd(i) | one), key == D.rnd(j)) for i in range(4) for j in range(4) if i != j]))
            self.need(ex, st, 'the rest of the offset is one random draw', Or(*[And(n > i, (R | one) == (D.rnd(i) | one)) for i in range(4)]))
        ff = self.fail(ex, st)
        if not isinstance(bn, Handle): raise Unsupported('result BIGNUM %r' % (bn,))
        ex.gset(st, 'resbn', bn.t); ex.gset(st, 'reslow', BoolVal(low))
        c2 = D.ccout
        ex.store(st, cc, I(64), If(ff, ex.load(st, cc, I(64)), c2))
        return self.rc(ff)
class TOut(TC):
    def apply(self, ex, st, args, tys, ats, ins):
        D = self.D; gc, bn, cc, mode, out = args
        self.need(ex, st, 'formats the result of the protocol that ran', And(ex.gget(st, 'reslow') == BoolVal('LowMem' in self.name), self.hd(bn, ex.gget(st, 'resbn'))))
        self.need(ex, st, 'with the circuit, the mode and the number of cycles really run', And(D.isgc(gc), cc == D.ccout, mode == D.mode, self.hd(out, D.out)))
        return self.rc(self.fail(ex, st))
class TNop(TC):
    def apply(self, ex, st, args, tys, ats, ins): return None if ins.ty == ('void',) else self.rc(BoolVal(False))
class Top(Contract):
    def __init__(self, garbler):
        self.garbler = garbler; self.name = self.unit = 'GarbleStr' if garbler else 'EvaluateStr'; self.nbn = 0; self.gc = None
        self.params = tuple('scd pi pn si sn cc mask period mode noot lowmem out fd'.split())
    def ghost_init(self, ex):
        g = dict(failed=BoolVal(False), draws=IntVal(0), keys=IntVal(0), key=BitVecVal(0, 128), resbn=IntVal(-1), reslow=BoolVal(False))
        for k in range(12): g['bn%d' % (1000 + k)] = IntVal(-1)
        return g
    def fld(self, n): return BitVec('gc_' + n, 64)
    def rnd(self, k): return Function('random_draw', IntSort(), B128)(k)
    def isgc(self, p): return BoolVal(isinstance(p, Ptr) and isinstance(self.gc, Ptr) and p.r.id == self.gc.r.id and not p.path)
    def setup(self, ex, st, fn):
        self.nbn = 0
        for n in 'scd pi pn si sn mask out'.split(): setattr(self, n, Handle(Int('str_' + n)))
        self.cc = BitVec('clock_cycles', 64); self.period = BitVec('terminate_period', 64); self.mode = BitVec('output_mode', 32)
        self.noot, self.lowmem = Bools('disable_OT low_mem_foot'); self.fd = BitVec('connfd', 32); self.peer_key = BitVec('peer_key', 128); self.ccout = BitVec('cycles_run', 64)
        return [getattr(self, n) for n in self.params]
    def callees(self):
        N = lambda c, *ns: [c(self, n) for n in ns]
        p = 'Garble' if self.garbler else 'Evaluate'
        return N(TRead, 'ReadSCD') + N(TFan, 'FillFanout') + N(TRnd, 'RandomBlock') + N(TNew, 'BN_new') + N(TParse, 'ParseInitInputStr') + N(TKey, 'SendData' if self.garbler else 'RecvData') + N(TProt, p + 'BNLowMem', p + 'BNHighMem') + N(TOut, 'OutputBN2StrLowMem', 'OutputBN2StrHighMem') + N(TNop, 'BN_free', 'BN_clear_free', 'RemoveGarbledCircuit') + [Keep(self.name)]
    def post(self, k):
        ex = self.ex if hasattr(self, 'ex') else k.ex; st = k.new; failed = ex.gget(st, 'failed')
        bad = Or(self.cc == 0, And(self.period != 0, self.fld('terminate_id') == 0), failed)
        return [('succeeds exactly when cycles were requested, a checked circuit has a terminate signal, and every step succeeded', k.result == If(bad, BitVecVal(-1, 32), BitVecVal(0, 32))),
                ('one key message was exchanged', Implies(Not(bad), ex.gget(st, 'keys') == 1))]
# ---------------------------------------------------------------- EvalauatePlaintextStr
class PHex(TC):
    """BN_hex2bn(&bn, text): bn becomes the number written"""
    def apply(self, ex, st, args, tys, ats, ins):
        h = ex.load(st, args[0], PTR)
        if not isinstance(h, Handle) or not is_num(simplify(h.t)) or not isinstance(args[1], Handle): raise Unsupported('BN_hex2bn target')
        ex.gset(st, 'bn%d' % simplify(h.t).as_long(), args[1].t); return BitVecVal(1, 32)
class PCStr(TC):
    def apply(self, ex, st, args, tys, ats, ins): return args[0] if isinstance(args[0], Handle) else ex.lib_val(PTR)
class PLog(TC):
    def apply(self, ex, st, args, tys, ats, ins): return ex.lib_val(PTR)
class PEval(TC):
    def apply(self, ex, st, args, tys, ats, ins):
        D = self.D; scd, gc, *bns, cc, per, out = args
        self.need(ex, st, 'the circuit is the one read', And(D.isgc(gc), self.hd(scd, D.scd)))
        for n, h in zip(D.NUM, bns):
            h = simplify(h.t) if isinstance(h, Handle) else None
            self.need(ex, st, n + ' is the number given for it', (ex.gget(st, 'bn%d' % h.as_long()) if h is not None and is_num(h) else IntVal(-1)) == getattr(D, n).t)
        self.need(ex, st, 'requested number of cycles and period', And(ex.load(st, cc, I(64)) == D.cc, per == D.period))
        o = ex.load(st, out, PTR)
        if not isinstance(o, Handle): raise Unsupported('result BIGNUM %r' % (o,))
        f = self.fail(ex, st); ex.gset(st, 'resbn', o.t); ex.store(st, cc, I(64), If(f, ex.load(st, cc, I(64)), D.ccout)); return self.rc(f)
class PlainTop(Top):
    NUM = ('p_init', 'g_init', 'e_init', 'p_input', 'g_input', 'e_input')
    def __init__(self):
        self.garbler = True; self.name = self.unit = 'EvalauatePlaintextStr'; self.nbn = 0; self.gc = None; self.params = ('scd',) + self.NUM + ('cc', 'period', 'mode', 'out')
    def setup(self, ex, st, fn):
        self.nbn = 0
        for n in ('scd', 'out') + self.NUM: setattr(self, n, Handle(Int('str_' + n)))
        ex.axiom(st, Distinct(*[getattr(self, n).t for n in self.NUM]))
        self.cc = BitVec('clock_cycles', 64); self.period = BitVec('terminate_period', 64); self.mode = BitVec('output_mode', 32); self.ccout = BitVec('cycles_run', 64)
        return [getattr(self, n) for n in self.params]
    def ghost_init(self, ex): return dict(super().ghost_init(ex), reslow=BoolVal(False))
    def callees(self):
        N = lambda c, *ns: [c(self, n) for n in ns]; C = '_ZNKSt7__cxx1112basic_stringIcSt11char_traitsIcESaIcEE5c_strEv'
        return N(TRead, 'ReadSCD') + N(TNew, 'BN_new') + N(PHex, 'BN_hex2bn') + N(PCStr, C) + N(PLog, 'BN_bn2hex') + N(PEval, 'EvalauatePlaintext') + N(TOut, 'OutputBN2StrHighMem') + N(TNop, 'BN_free', 'BN_clear_free', 'RemoveGarbledCircuit') + [Keep(self.name)]
    def post(self, k):
        st = k.new; failed = k.ex.gget(st, 'failed'); bad = Or(And(self.period != 0, self.fld('terminate_id') == 0), failed)
        return [('succeeds exactly when a checked circuit has a terminate signal and every step succeeded', k.result == If(bad, BitVecVal(-1, 32), BitVecVal(0, 32)))]
