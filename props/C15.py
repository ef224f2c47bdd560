from netl import *
from hx import *
import parse, bris, mapping
def units(cx):
    r = NetReg().add(AddWires(), Keep('IdAssignment')); mod = cx.module(r, srcs=build.SRCS + build.SCD, key='netl'); r.pt = pair_type(mod); us = []
    for c in (AddWires(), IdAssign()):
        cx.under_contract(c.name)
        def gen(c=c):
            v = verify(mod, r, c, 'int', noframe=lambda r, d: False); cx.trust(*sorted(v.ex.assumed)); return v.obls, v.covers
        us.append((c.unit, gen))
    for c in PIPES:
        q = NetReg().add(*c.callees()); q.pt = S('struct.std::pair'); cx.under_contract(c.name)
        def gen(c=c, q=q):
            v = verify(cx.module(q, srcs=build.SRCS + build.SCD, key=c.name), q, c, 'int', noframe=lambda r, d: False); cx.trust(*sorted(v.ex.assumed)); return v.obls, v.covers
        us.append((c.unit, gen))
    w = parse.ParseReg().add(Keep('ParseNetlist')); c = parse.Parse(); cx.under_contract(c.name)
    def gen(c=c, w=w):
        m = cx.module(w, srcs=build.SRCS + build.SCD, key='parse'); w.pt = pair_type(m)
        v = verify(m, w, c, 'int', noframe=lambda r, d: True, varying_ghosts=('pos', 'line'), dryfix=True, nounroll=lambda c: any('getline' in x or '7compare' in x or 'foreach' in x for x in c)); cx.trust(*sorted(v.ex.assumed)); return v.obls, v.covers
    b = bris.ParseBris(); rb = bris.BrisReg().add(Keep('ParseBrisNetlist')); cx.under_contract(b.name)
    def genb():
        v = verify(cx.module(rb, srcs=build.SRCS + build.SCD, key='bris'), rb, b, 'int', noframe=lambda r, d: True, varying_ghosts=('ip',)); cx.trust(*sorted(v.ex.assumed)); return v.obls, v.covers
    rm = mapping.MapReg().add(Keep('WriteMapping')); wm = mapping.WriteMap(rm); cx.under_contract(wm.name)
    def genm():
        v = verify(cx.module(rm, srcs=build.SRCS + build.SCD, key='map'), rm, wm, 'int', noframe=lambda r, d: True, varying_ghosts=('ip',), nounroll=lambda c: any('_ZNSi' in x for x in c)); cx.trust(*sorted(v.ex.assumed)); return v.obls, v.covers
    us += [(wm.unit, genm), (b.unit, genb), (c.unit, gen), ('cells of several gates', parse.cell_lemmas)]
    cx.assume('std::ifstream and std::getline deliver the lines of the file; boost::tokenizer splits a line into its tokens (blanks, commas and parentheses separate, a semicolon is a token), and finds the width of a bit range; atoi reads a decimal number below 2^31',
              'writing the mapping file does not fail',
              'a Bristol file is complete, its gates have one or two inputs, its numbers are below 2^31, its inputs and outputs are different wires',
              'an equal sign in the file follows the name that is assigned to')
    cx.assume('no two wires of the netlist have the same name, and the two sides of an assignment are one wire (otherwise no circuit is described)', 'fewer than 2^31 wires', 'output and terminate names that stand for constants: see the known finding',
              'std::map, std::pair, std::vector, std::string and std::to_string behave as documented; texts are equal exactly if they are built from the same pieces')
    return us
NV = 'random synthesised netlists (at most 13 bits per port, 4 flip-flops, 30 cells, 12 outputs) in every layout the grammar allows, '
bounded = bounded_of(hb('verilog', ['verilog', '{seed}', (1500, 20000)], NV + 'simulated by name for 4 cycles and compared with the circuit read, with the SCD file written and with the wires of the mapping file'),
                     hb('verilog', ['big', '{seed}', (4, 40)], 'random synthesised netlists of 2000-5000 or 66000-69000 cells, ports of up to 700 bits, 600 outputs and 400 flip-flops'),
                     hb('verilog', ['reject', '{seed}', (1000, 10000)], NV + 'with one defect each: a missing pin, an unconnected name, an unknown port, a wide terminate signal, a missing endmodule'),
                     hb('verilog', ['bristol', '{seed}', (800, 10000)], 'random Bristol circuits of at most 11 inputs and 25 gates'))
