from cycle import *
import fanout, gatefn
from fanout import ReduceBody, NNXBody
from hx import *
from C02 import known_value
def fn_unit(cx, c, r, **opts):
    cx.under_contract(c.name); mod = cx.module(r, key=type(c).__module__ + type(c).__name__)
    def gen():
        v = verify(mod, r, c, 'int', **opts); cx.trust(*sorted(v.ex.assumed)); return v.obls, v.covers
    return (c.name, gen)
def kept(cx, c): return fn_unit(cx, c, fanout.keepreg(c))
def shared(cx):
    """what both footprints rest on: the gate functions, the fan-out bookkeeping and its lemmas"""
    cx.assume('well-formed circuit: input 0 (and, for all but NOT, input 1) of a gate is a constant or an earlier wire, output of gate i is wire G+i, flip-flop sources and outputs are wires or constants; at most 2^32 gates; the fan-outs are those FillFanout computes (C26)',
              'the second input of a NOT gate is negative or an earlier wire')
    return [gatefn.fn_units(cx, 'garbler'), gatefn.fn_units(cx, 'evaluator'), ('GarbleEvalGateKnownValue', known_value(cx)), kept(cx, ReduceBody()), kept(cx, NNXBody()),
            ('lemmas on ReduceFanout', fanout.red_lemmas), ('lemmas on the number of non-linear gates', fanout.nnx_lemmas), ('values are 0, 1 or secret', fanout.value_lemmas)]
def cycle_units(cx, *cs): return [fn_unit(cx, c, lowreg(c), **c.opts) for c in cs]
def units(cx): return cycle_units(cx, GHigh(), EHigh()) + shared(cx)
bounded = bounded_of(tp('hm', 1200, 12000), tables('hm', 20000, 400000))
