from sock import *
from hx import *
def units(cx):
    us = []
    for s in (True, False):
        c = Sock(s); r = sreg(c); cx.under_contract(c.name)
        def gen(c=c, r=r):
            v = verify(cx.module(r, key='s' + c.name), r, c, 'int', varying_ghosts=('pos',)); cx.trust(*sorted(v.ex.assumed)); return v.obls, v.covers
        us.append((c.name, gen))
    return us
bounded = bounded_of(hb('sock', ['{seed}', (2000, 20000)], 'random transfers of -4..400000 bytes over a socketpair whose read/write are cut short or fail at random'))
