from C03 import *
from lowdrv import GLowDrv, ELowDrv
def drv(cx, c):
    r = Registry().add(*c.callees()); return fn_unit(cx, c, r, **c.noframes)
def units(cx): return cycle_units(cx, GLow(), ELow()) + [drv(cx, GLowDrv()), drv(cx, ELowDrv())] + shared(cx)
bounded = bounded_of(tp('lm', 1200, 12000), tables('lm', 20000, 400000))
