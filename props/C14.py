from sched import *
from hx import *
def units(cx):
    r = schedreg(None); mod = cx.module(r, srcs=build.SRCS + build.SCD, key='sched'); us = []
    for c in (Visit(), TopSort(), SortNet()):
        cx.under_contract(c.name)
        def gen(c=c):
            v = verify(mod, r, c, 'int', noframe=lambda r, d: r.kind != 'alloca' or r.ety == VL); cx.trust(*sorted(v.ex.assumed)); return v.obls, v.covers
        us.append((c.unit, gen))
    cx.assume('the netlist is well-formed: vector sizes match the size fields, every input refers to a wire or a constant, flip-flop outputs and circuit outputs and the terminate signal refer to wires (constant outputs are not supported by the pipeline)', 'fewer than 2^31 wires', 'the circuit object and the lists the functions receive do not overlap',
              'termination of the recursive visit is not proved (partial correctness)', 'std::vector operations as the C++ standard says; finite pigeonhole principle')
    return us
bounded = bounded_of(hb('netlist', ['sched', '{seed}', (30000, 600000)], 'random netlists of up to 400 gates in random order, with constants, no inputs at all, and cycles; the renumbered netlist is compared with the original gate by gate'))
