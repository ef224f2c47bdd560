from term import *
from driver import GLow, ELow, GHigh, EHigh
from hx import *
KEEPS = ['GarbleTransferTerminate', 'EvaluateTransferTerminate']
def registry(): return Registry().add(SendData(), RecvData(), *[Keep(n) for n in KEEPS])
def fn_unit(cx, mod, reg, c):
    def gen():
        v = verify(mod, reg, c, 'int'); cx.trust(*sorted(v.ex.assumed)); return v.obls, v.covers
    return (c.name, gen)
def units(cx):
    reg = registry(); mod = cx.module(reg, key='term'); cx.under_contract(*KEEPS)
    drv = []
    for c in (GLow(), ELow(), GHigh(), EHigh()):
        r = Registry().add(*c.callees()); cx.under_contract(c.name)
        drv.append(fn_unit(cx, cx.module(r, key=c.name), r, c))
    return drv + [fn_unit(cx, mod, reg, c) for c in (GTerm(), ETerm())] + [('two-party composition', composition)]
bounded = bounded_of(tp('term-hm', 400, 2500), tp('term-lm', 400, 2500))
