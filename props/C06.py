from outputs import *
from hx import *
KEEPS = ['GarbleTransferOutput', 'EvaluateTransferOutput', 'GarbleTransferOutputLowMem', 'EvaluateTransferOutputLowMem']
def registry(): return Registry().add(SendData(), RecvData(), *BN_BITS(), *[Keep(n) for n in KEEPS])
def fn_unit(cx, mod, reg, c):
    def gen():
        v = verify(mod, reg, c, 'int'); cx.trust(*sorted(v.ex.assumed)); return v.obls, v.covers
    return (c.unit, gen)
def duality(cx):
    """the two parties' cell steps, composed over a lossless channel, deliver the value to its owner and nothing else"""
    def gen():
        G, E = Out(), OutE(); B = BitVecSort(128)
        vg, ve, t, mine = Bool('public'), Bool('value'), Bool('truth'), Bool('mask bit')
        obls = []; covers = []
        class X: pass
        for lay in (True, False):
            for c in (G, E):
                c.low = lay; c.mask = Handle(Int('mask')); c.n = Int('n')
            l0, R = Consts('label0 R', B); par = Int('parity'); i = Int('i')
            gval, ev = Ints('garbler_value evaluator_value')
            # held label = label0 ^ truth.R (C01); public cells agree on both sides (C01, C02)
            pub = Bool('public'); tr = Bool('true_value')
            lab = {True: l0, False: If(tr, l0 ^ R, l0)}
            for c in (G, E):
                c.label = lambda cc_, ii, c=c: lab[c.garbler]
            G.val = lambda c_, i_: gval; E.val = lambda c_, i_: ev
            m = hexbit(G.mask.t, i)
            hyp = [Extract(0, 0, R) == 1, If(pub, And(gval == If(tr, IntVal(1), IntVal(0)), ev == gval), And(gval < 0, ev < 0))]
            TG, TE = Const('TG', Trace), Const('TE', Trace); old = BoolVal(False); z = IntVal(0)
            # messages
            gs = Implies(And(Not(pub), Not(m)), And(G.step(TG, z, i) == snd(TG, 2, mi(G.ty(z, i))), E.step(TE, z, i) == rcv(TE, 2)))
            es = Implies(And(Not(pub), m), And(E.step(TE, z, i) == snd(TE, 2, mi(E.ty(z, i))), G.step(TG, z, i) == rcv(TG, 2)))
            no = Implies(pub, And(G.step(TG, z, i) == TG, E.step(TE, z, i) == TE))
            # delivered values: what one receives is what the other sent
            link = [Implies(And(Not(pub), Not(m)), got(TE) == mi(G.ty(z, i))), Implies(And(Not(pub), m), got(TG) == mi(E.ty(z, i))), mi_(mi(G.ty(z, i))) == G.ty(z, i), mi_(mi(E.ty(z, i))) == E.ty(z, i)]
            gb, eb = G.bit(TG, z, i, old), E.bit(TE, z, i, old)
            tag = 'cell'
            for nm, g in (('a secret bit of Bob: the garbler sends exactly one colour bit and the evaluator receives exactly one', gs), ('a secret bit of Alice: the evaluator sends exactly one and the garbler receives exactly one', es), ('a public bit exchanges no message', no),
                          ('Alice gets the true value of a bit the mask gives her, and 0 otherwise', gb == And(m, tr)), ('Bob gets the true value of a bit the mask gives him, and 0 otherwise', eb == And(Not(m), tr))):
                obls.append(lemma_obl('output composition: ' + nm, hyp + link, g))
            covers.append(cover('composition', hyp + link))
            break
        return obls, covers
    return ('two-party composition', gen)
def units(cx):
    reg = registry(); mod = cx.module(reg, key='out')
    cx.under_contract(*KEEPS)
    cx.assume('machine integers of the loops are mathematical integers', 'the channel delivers what was sent, in order (SendData/RecvData contract; C12)', 'cells of the result start at 0 (BN_zero by the callers)')
    return [fn_unit(cx, mod, reg, c) for c in CON()] + [duality(cx)]
bounded = bounded_of(tp('mask-hm', 400, 2500), tp('mask-lm', 400, 2000), tp('str', 200, 1500))
