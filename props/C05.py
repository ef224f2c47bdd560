from fold import *
from top import PlainTop
from hx import *
def unit(cx, c, r, key, srcs=None, mode='int'):
    cx.under_contract(c.name)
    def gen():
        v = verify(cx.module(r, srcs=srcs, key=key), r, c, mode); cx.trust(*sorted(v.ex.assumed)); return v.obls, v.covers
    return (c.name, gen)
def units(cx):
    cx.assume('well-formed circuit: gate i writes wire G+i; gate inputs, flip-flop sources, outputs and the terminate wire are constants, inputs, flip-flops or (earlier) gates; initial values come from init ports or constants',
              'the .map file opens, the .csv file can be written; *outputs is not null', 'OpenSSL bit operations succeed')
    c = Plain()
    t = PlainTop()
    return [unit(cx, t, Registry().add(*t.callees()), 'ptop', build.SRCS + build.SCD, 'bv'), unit(cx, GateOp(), Registry().add(Keep('GateOperator')), 'gateop'), unit(cx, c, reg(c), 'plain', build.SRCS + build.SCD)]
bounded = bounded_of(hb('plain', ['{seed}', (6000, 200000)], 'random sequential circuits (at most 7 inputs of each kind, 6 flip-flops, 40 gates, 6 cycles), plaintext evaluator against an independent simulator'), hb('prog', ['eval', '{seed}', (2000, 20000)], 'SCD_Evaluator with random options on random circuits (at most 3 inputs of each kind, 3 flip-flops, 30 gates, 6 cycles), numbers as digits or in files, all output modes'))
