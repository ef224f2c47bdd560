from outfmt import *
from filehex import ReadFileHex, FileReg
from hx import *
def units(cx):
    us = []
    for c in fmtspecs():
        r = fmtreg(c); cx.under_contract(c.name)
        def gen(c=c, r=r):
            v = verify(cx.module(r, key='f' + c.name), r, c, 'int'); cx.trust(*sorted(v.ex.assumed)); return v.obls, v.covers
        us.append((c.unit, gen))
    fr = FileReg().add(Keep('ReadFileOrPassHex')); cx.under_contract('ReadFileOrPassHex')
    def gen2():
        v = verify(cx.module(fr, key='filehex'), fr, ReadFileHex(), 'int'); cx.trust(*sorted(v.ex.assumed)); return v.obls, v.covers
    us.append(('ReadFileOrPassHex', gen2))
    cx.assume('the result has fewer than 2^31 bits (clock_cycles * output_size)', 'at least one clock cycle was run (GarbleStr/EvaluateStr refuse 0 cycles: C21)', 'BN_rshift, BN_mask_bits, BN_bn2hex and BN_hex2bn behave as documented by OpenSSL; std::string assignment and concatenation as the C++ standard says')
    return us
bounded = bounded_of(hb('fmt', ['{seed}', (4000, 60000)], 'random results of up to 3000 output bits and 300 cycles, all modes, both footprints; random input strings of up to 3000 bits'), hb('prog', ['eval', '{seed}', (2000, 20000)], 'SCD_Evaluator with random options on random circuits (at most 3 inputs of each kind, 3 flip-flops, 30 gates, 6 cycles), numbers as digits or in files, all output modes'), hb('prog', ['parties', '{seed}', (1500, 15000)], 'TinyGarble --alice against --bob with random options on random circuits (at most 3 inputs of each kind, 3 flip-flops, 30 gates, 6 cycles), numbers as digits or in files, all output modes, masks and footprints; the connection is a socketpair'))
