from labels import *
from hx import *
def fn_unit(cx, mod, reg, c):
    def gen():
        v = verify(mod, reg, c, 'int'); cx.trust(*sorted(v.ex.assumed)); return v.obls, v.covers
    return (c.unit, gen)
def units(cx):
    us = []
    for c in otfns():
        r = otreg(c); cx.under_contract(c.name)
        us.append(fn_unit(cx, cx.module(r, key='o' + c.name), r, c))
    for c in xfers():
        r = xreg(c); cx.under_contract(c.name)
        us.append(fn_unit(cx, cx.module(r, key='x' + c.name), r, c))
    return us
_u = units
def units(cx):
    us = _u(cx)
    r = Registry().add(Keep('GarbleTransferLabels'))
    us.append(('two-party composition', lambda: compose(cx.module(r, key='compose'), r)))
    return us
bounded = bounded_of(tp('hm', 300, 2000), tp('lm', 300, 2000), tp('hm', 60, 300, 1), tp('lm', 60, 300, 1))
