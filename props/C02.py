from gate import *
def known_value(cx):
    """GarbleEvalGateKnownValue(v0, v1, type, out): contract = the public part of the gate function"""
    reg = registry(); mod = cx.module(reg, key='gate'); codes = gate_codes()
    cx.under_contract('GarbleEvalGateKnownValue')
    def gen():
        obls = []; cov = []
        for n, c in codes.items():
            for case in CASES:
                for inv in ((-1, -1), (-2, -1), (-1, -2), (-2, -2)):
                    ex = new_exec(mod, reg, 'bv'); st = State(); st.gh = dict(ex.ghost_init)
                    ex.top = 'GarbleEvalGateKnownValue'
                    fn = find_fn(mod, 'GarbleEvalGateKnownValue')
                    if fn is None: raise Unsupported('GarbleEvalGateKnownValue not found')
                    v = [Const('v%d' % i, BoolSort()) for i in (0, 1)]
                    r = Region('out', I(16), ex.ival(1), 'param'); p = Ptr(r, (ex.zero(),))
                    val = [If(v[i], BitVecVal(1, 16), BitVecVal(0, 16)) if case[i] == 'pub' else BitVecVal(inv[i], 16) for i in (0, 1)]
                    ret, fin = ex.run(fn, [val[0], val[1], BitVecVal(c, 32), p], st)
                    F, T = BoolVal(False), BoolVal(True)
                    t = truth(n, *v); tb = If(t, BitVecVal(1, 16), BitVecVal(0, 16))
                    dep = {('pub', 'pub'): F, ('pub', 'sec'): truth(n, v[0], F) != truth(n, v[0], T), ('sec', 'pub'): truth(n, F, v[1]) != truth(n, T, v[1]), ('sec', 'sec'): T}[case]
                    o = peek(ex, fin, p, I(16))
                    ex.oblige(fin, 'post', 'pre-pass %s(%s,%s): public result iff fixed by public inputs, with the right value' % (n, *case), o == If(dep, BitVecVal(-1, 16), tb))
                    obls += ex.obls
                    if case == CASES[0]: cov.append(('inputs', fin.facts.all(), list(fin.pc)))
        return obls, cov
    return gen
def units(cx): return gate_units(cx, 'public') + [('GarbleEvalGateKnownValue', known_value(cx))]
replay = gate_replay('c02')
