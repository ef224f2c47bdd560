from C03 import *
from fanout import Fill
from lowdrv import GLowDrv, ELowDrv
def buffers(u, pick):
    """only the obligations about buffers (the values are C03 / C04)"""
    n, g = u
    def gen():
        o, cv = g(); return [x for x in o if x.kind == 'bounds' or pick(x.name)], cv
    return (n, gen)
def units(cx):
    cx.assume('well-formed circuit: gate inputs, flip-flop sources and outputs are constants or wires of the circuit')
    pick = lambda n: 'fit' in n or 'room' in n or 'no table' in n or 'non-linear gates' in n or 'tables cleared' in n or 'table ids' in n or 'number of tables' in n or 'fan-out' in n
    def drv(c): r = Registry().add(*c.callees()); return fn_unit(cx, c, r, **c.noframes)
    return [kept(cx, Fill()), kept(cx, ReduceBody()), kept(cx, NNXBody()),
            ('lemmas on ReduceFanout', fanout.red_lemmas), ('lemmas on the number of non-linear gates', fanout.nnx_lemmas)] + \
           [buffers(u, pick) for u in cycle_units(cx, GHigh(), EHigh(), GLow(), ELow()) + [drv(GLowDrv()), drv(ELowDrv())]]
bounded = bounded_of(tp('hm', 300, 3000), tp('lm', 300, 3000), tables('hm', 20000, 200000), tables('lm', 20000, 200000),
    *[hb('hostile', [m, a], 'a peer announcing %s tables for one gate (%s): Bob refuses before storing any' % (a, m)) for m in ('lm', 'hm') for a in ('2', '0x8000000000000010')])
