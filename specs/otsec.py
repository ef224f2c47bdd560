"""Secrecy side of the OT (C22): which obligations of C09/C10 are about masks, plus the masks' independence as lemmas."""
from otext import *
import ot
MARGIN = ot.KEYBITS - 64        # a column of at most MARGIN bits is hidden by a KEYBITS-bit mask up to 2^-64
DELIVERY = ('recovered', 'stores ', 'results', 'written', 'untouched', 'reports ', 'result of', 'length mismatch')
def masks_only(u):
    """drop the obligations that are only about delivering the right message (C09, C10) or buffer bounds"""
    n, g = u
    def gen():
        o, cv = g(); return [x for x in o if x.kind != 'bounds' and not any(d in x.name for d in DELIVERY)], cv
    return (n, gen)
class Narrow(XOTSend):
    """base OT as seen by OTExtRecvBN: the columns must be narrower than the masks"""
    def apply(self, ex, st, args, tys, ats, ins):
        m, n, fd = args; q, j = ex.fresh('q', Zi), ex.fresh('j', Zi); D = self.D; b = ex.bounds; ex.bounds = False
        row = deref(ex, st, m, q, [q >= 0, q < n], 'column pair')
        for h in (0, 1):
            c = bits(ex, st, deref(ex, st, row, IntVal(h), [q >= 0, q < n], 'column'))
            ex.oblige(st, 'call', 'columns of half %d are narrower than their mask' % h, Implies(c(j), And(j >= 0, j < MARGIN)), [q >= 0, q < n, D.n <= MARGIN])
        ex.bounds = b
        return XOTSend.apply(self, ex, st, args, tys, ats, ins)
def secreg(D):
    r = [Narrow(D) if isinstance(x, XOTSend) else x for x in extops(D)]
    return Registry().add(*[c for c in r if c.name != D.name], Keep(D.name))
def lemmas():
    O = []; X = []; i, j, i2, j2, k, z = Ints('i j i2 j2 k z'); d0, d1 = Ints('d0 d1')
    S_ = ot.OTSendBNS(); S_.d0 = d0; S_.ex = None
    rg = [i >= 0, i2 >= 0, j >= 0, j <= 1, j2 >= 0, j2 <= 1]
    O.append(lemma_obl('every mask of the base OT is a draw of its own', rg + [Or(i != i2, j != j2)], d0 + 2 * i + j != d0 + 2 * i2 + j2)); X.append(cover('masks', rg))
    for jj in (0, 1): O.append(lemma_obl('mask %d of message i is draw 2i+%d of the call' % (jj, jj), [i >= 0], S_.x(i, jj) == rnd_(d0 + 2 * i + jj)))
    R_ = ot.OTRecvBNS(); R_.d0 = d0; R_.nn_ = ot.RN; O.append(lemma_obl('blinding value i is draw i of the call, reduced', [], R_.kk(i) == ot.nnmod(rnd_(d0 + i), ot.RN)))
    E = SendS(); n, mb = Ints('m_len m_bitlen'); E.n, E.mb, E.d0 = n, mb, Int('dS'); mf = Function('m', Zi, Zi, Zi, Bo); E.m0 = Base(lambda *a: mf(*a)); E.defs()
    ax = E.axs()[1:]
    hy = ax + [z >= 0, z < n, k >= 0, k < K, E.sbit(k)]
    O.append(lemma_obl('the rows masking the two messages of a pair differ wherever S has a 1', hy, E.R[0](z) != E.R[1](z), )); X.append(cover('rows', hy))
    return O, X
rnd_ = ot.rnd
