from scdio import *
from hx import *
def units(cx):
    us = []; W = ScdReg(); R = ScdReg(); W.add(Keep('WriteSCD')); R.add(Keep('ReadSCD'), MemAlign(), Errno(), StrError())
    for r, c in ((W, WriteScd(W)), (R, ReadScd())):
        cx.under_contract(c.name)
        def gen(c=c, r=r):
            v = verify(cx.module(r, srcs=build.SRCS + build.SCD, key='scd' + c.name), r, c, 'int', varying_ghosts=('ip',)); cx.trust(*sorted(v.ex.assumed)); return v.obls, v.covers
        us.append((c.unit, gen))
    cx.assume('decimal printing and parsing of numbers by libstdc++ streams are inverse; writing the file does not fail; 0 <= every size < 2^31; gate types are 0..63; wire numbers fit in 62 bits', 'posix_memalign and new return fresh buffers (or the call reports failure)')
    return us + [('WriteSCD then ReadSCD', roundtrip)]
bounded = bounded_of(hb('netlist', ['scd', '{seed}', (4000, 40000)], 'random circuits of up to 400 gates with random schedules and wire numbers up to 2^44 written and read back'))
