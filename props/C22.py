from otsec import *
from hx import *
def fn(cx, key, r, c):
    cx.under_contract(c.name); mod = cx.module(r, key=key)
    def gen():
        v = verify(mod, r, c, 'int'); cx.trust(*sorted(v.ex.assumed)); return v.obls, v.covers
    return (c.name, gen)
def units(cx):
    cx.assume('BN_rand draws are independent and uniform; RSA (semi-honest peer) and SHA-256 hide their arguments', 'OpenSSL operations succeed; number exchange and bit operations are their contracts (C11)',
              'at most %d messages per extension (see the known finding for more)' % MARGIN)
    us = [fn(cx, c.name, Registry().add(*ot.arith(), Keep(c.name)), c) for c in (ot.OTSendBNS(), ot.OTRecvBNS())]
    h = HashS(); us.append(fn(cx, 'HashBN', hashreg(h), h))
    for c in (SwitchS(True), SendS(), RecvS()): us.append(fn(cx, c.name, secreg(c), c))
    for c, cal in ((WSend('OTSend'), 'OTSendBN'), (WSend('OTExtSend'), 'OTExtSendBN')): us.append(fn(cx, c.name, wreg(c, cal), c))
    return [masks_only(u) for u in us] + [('independence of the masks', lemmas)]
bounded = bounded_of(hb('ot', ['mask', '{seed}', (400, 6000)], 'each real side of base OT and OT extension against an independent peer that inspects masks, blinding values, rows and S'))
