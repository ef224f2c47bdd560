from ot import *
from hx import *
def fn(cx, r, c):
    cx.under_contract(c.name); mod = cx.module(r, key=c.name)
    def gen():
        v = verify(mod, r, c, 'int'); cx.trust(*sorted(v.ex.assumed)); return v.obls, v.covers
    return (c.name, gen)
def units(cx):
    cx.assume('OpenSSL operations succeed; its RSA key is a correct key: (k^e)^d = k mod n for 0 <= k < n', 'SendBN/RecvBN/BlockToBN/BNToBlock are their contracts (C11), SendData/RecvData theirs (C12)')
    us = [fn(cx, Registry().add(*arith(), Keep(c.name)), c) for c in (OTSendBNS(), OTRecvBNS())]
    for c, cal in ((WSend('OTSend'), 'OTSendBN'), (WRecv('OTRecv'), 'OTRecvBN')): us.append(fn(cx, wreg(c, cal), c))
    us.append(('sender/receiver composition', otcompose))
    return us
bounded = bounded_of(hb('ot', ['base', '{seed}', (600, 8000)], 'base OT: both real sides over a socketpair, and each side against an independent peer'))
