from bn import *
from hx import *
def units(cx):
    us = []; r = bnreg()
    mod = cx.module(r)
    for c in bnspecs():
        cx.under_contract(c.name)
        def gen(c=c):
            v = verify(mod, bnreg(), c, 'bv' if c.bv else 'int'); cx.trust(*sorted(v.ex.assumed)); return v.obls, v.covers
        us.append((getattr(c, 'unit', c.name), gen))
    us.append(('SendBN/RecvBN composition', bncompose))
    return us
bounded = bounded_of(hb('bn', ['{seed}', (6000, 100000)], 'random blocks and BIGNUMs up to 3000 bits, SendBN/RecvBN over a socketpair'))
