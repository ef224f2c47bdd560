from labelgen import *
from top import Top
from hx import *
def fn_unit(cx, mod, reg, c, mode='int'):
    def gen():
        v = verify(mod, reg, c, mode); cx.trust(*sorted(v.ex.assumed)); return v.obls, v.covers
    return (c.unit, gen)
def units(cx):
    us = []
    gs = GENS(); r = Registry().add(Rnd(), *[Keep(c.name) for c in gs]); mod = cx.module(r, key='gen')
    for c in gs: cx.under_contract(c.name); us.append(fn_unit(cx, mod, r, c))
    for g in (True, False):
        c = Top(g); r = Registry().add(*c.callees()); cx.under_contract(c.name)
        us.append(fn_unit(cx, cx.module(r, key=c.name), r, c, 'bv'))
    return us
bounded = bounded_of(tp('str', 200, 1500), hb('labels', ['{seed}', (150, 1200)], 'random circuits of at most 3 wires of each kind, 3 cycles, the garbler observed by a recording peer'), hb('prog', ['parties', '{seed}', (1500, 15000)], 'TinyGarble --alice against --bob with random options on random circuits (at most 3 inputs of each kind, 3 flip-flops, 30 gates, 6 cycles), numbers as digits or in files, all output modes, masks and footprints; the connection is a socketpair'))
