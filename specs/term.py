"""Contracts of GarbleTransferTerminate / EvaluateTransferTerminate."""
from chan import *
from chan import Keep
BP = S('struct.BlockPair')
class Term(Contract):
    params = ('gc', 'label', 'val', 'res', 'fd'); garbler = True
    def ghost_init(self, ex): return ghosts0(ex)
    def setup(self, ex, st, fn):
        gc = circuit(ex)
        lr = Region('terminate_label', BP if self.garbler else VEC, ex.ival(1), 'param')
        rr = Region('is_terminate', I(8), ex.ival(1), 'param')
        self.lp = Ptr(lr, (ex.zero(),)); self.rp = Ptr(rr, (ex.zero(),)); self.val = Int('terminate_val')
        self.lab = peek(ex, st, self.lp, BP, 0) if self.garbler else peek(ex, st, self.lp, VEC)
        return [gc, self.lp, self.val, self.rp, Int('connfd')]
    def mods(self, k): return [('cell', self.rp, I(8))]
    def secret(self, v): return And(v != 0, v != 1)
    def own(self, lab): return If(lsb(lab), IntVal(1), IntVal(0))
    def step(self, T, v, lab):
        """messages: the garbler sends its colour first, then receives; the evaluator the other way round"""
        t = self.own(lab)
        return If(self.secret(v), rcv(snd(T, 2, mi(t)), 2) if self.garbler else snd(rcv(T, 2), 2, mi(t)), T)
    def gotten(self, T, lab): return mi_(got(snd(T, 2, mi(self.own(lab))) if self.garbler else T))
    def result(self, T, v, lab): return If(self.secret(v), self.own(lab) != self.gotten(T, lab), v == 1)
    def post(self, k):
        ex = self.ex = k.ex; st = k.new; failed = ex.gget(st, 'failed')
        r = peek(ex, st, self.rp, I(8))
        return [('reports failure exactly when the channel failed', k.result == If(failed, IntVal(-1), IntVal(0))),
                ('exactly the specified messages are exchanged, in order', Implies(Not(failed), tget(ex, st) == self.step(T0, self.val, self.lab))),
                ('the decision is the decoded value of the terminate wire', Implies(Not(failed), r == If(self.result(T0, self.val, self.lab), IntVal(1), IntVal(0))))]
    def apply(self, ex, st, args, tys, ats, ins):
        gc, lp, v, rp, fd = args
        lab = peek(ex, st, lp, BP, 0) if self.garbler else peek(ex, st, lp, VEC)
        f = ex.fresh('io_fail', BoolSort()); fail_flag(ex, st, f)
        T = tget(ex, st)
        old = ex.load(st, rp, I(8))
        res = If(self.result(T, v, lab), IntVal(1), IntVal(0))
        ex.store(st, rp, I(8), If(f, old, res))
        tset(ex, st, If(f, T, self.step(T, v, lab)))
        return If(f, IntVal(-1), IntVal(0))
class GTerm(Term): name = 'GarbleTransferTerminate'
class ETerm(Term): name = 'EvaluateTransferTerminate'; garbler = False
def composition():
    G, E = GTerm(), ETerm(); B = BitVecSort(128)
    pub, tr = Bools('public true_value'); l0, R = Consts('label0 R', B); gv, ev = Ints('gval eval')
    le = If(tr, l0 ^ R, l0); TG, TE = Const('TG', Trace), Const('TE', Trace)
    link = [G.gotten(TG, l0) == E.own(le), E.gotten(TE, le) == G.own(l0)]
    hyp = [Extract(0, 0, R) == 1, If(pub, And(gv == If(tr, IntVal(1), IntVal(0)), ev == gv), And(gv < 0, ev < 0))] + link
    o = [lemma_obl('termination composition: both parties decide, and decide the true value of the terminate wire', hyp, And(G.result(TG, gv, l0) == tr, E.result(TE, ev, le) == tr)),
         lemma_obl('termination composition: the messages are dual (garbler sends one colour bit then receives one; evaluator receives then sends)', hyp,
                   If(pub, And(G.step(TG, gv, l0) == TG, E.step(TE, ev, le) == TE), And(G.step(TG, gv, l0) == rcv(snd(TG, 2, mi(G.own(l0))), 2), E.step(TE, ev, le) == snd(rcv(TE, 2), 2, mi(E.own(le))))))]
    return o, [cover('composition', hyp)]
