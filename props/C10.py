from otext import *
import ot
from hx import *
def fn(cx, key, r, c):
    cx.under_contract(c.name); mod = cx.module(r, key=key)
    def gen():
        v = verify(mod, r, c, 'int'); cx.trust(*sorted(v.ex.assumed)); return v.obls, v.covers
    return (c.name, gen)
def units(cx):
    cx.assume('OpenSSL operations succeed and SHA-256 digests are a function of the digested bytes', 'OTSendBN/OTRecvBN deliver the selected columns (C09); SendBN/RecvBN/BN_xor/BN_invert/BN_full_one/BlockToBN/BNToBlock are their contracts (C11)',
              'message width at most 256 bits (HashBN refuses more)', 'the peer follows the protocol')
    us = []
    h = HashS(); us.append(fn(cx, 'HashBN', hashreg(h), h))
    for c in (SwitchS(False), SwitchS(True), SendS(), RecvS()): us.append(fn(cx, c.name, extreg(c), c))
    for c, cal in ((WSend('OTExtSend'), 'OTExtSendBN'), (WRecv('OTExtRecv'), 'OTExtRecvBN')): us.append(fn(cx, c.name, wreg(c, cal), c))
    us.append(('sender/receiver composition', extcompose))
    return us
bounded = bounded_of(hb('ot', ['ext', '{seed}', (60, 1500)], 'OT extension: both real sides over a socketpair, each side against an independent peer, HashBN against an independent SHA-256 oracle'))
