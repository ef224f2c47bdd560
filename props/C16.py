from conv import *
from hx import *
def units(cx):
    us = []
    for c in convspecs():
        r = convreg(c); cx.under_contract(c.name)
        def gen(c=c, r=r):
            v = verify(cx.module(r, key='c' + c.name), r, c, getattr(c, 'mode', 'int')); cx.trust(*sorted(v.ex.assumed)); return v.obls, v.covers
        us.append((c.unit, gen))
    cx.assume('texts of fewer than 2^60 characters; texts given to the hexadecimal conversions consist of digits, and to the binary conversions of 0 and 1', 'std::string, std::bitset<64>, boost::algorithm::erase_all and std::stoull behave as documented; they do not run out of memory', 'negating the most negative 64-bit number wraps around (g++ and clang)')
    us.append(('numbers laid side by side', lambda: (offlemma(), [])))
    return us
bounded = bounded_of(hb('conv', ['{seed}', (12000, 200000)], 'random numbers, bit widths, binary and hexadecimal strings; every 400th case has strings of more than 65535 characters and more than 255 numbers'))
