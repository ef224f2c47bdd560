"""Bounded stand-ins / replay on the real code: the concrete harnesses."""
def hb(h, args, what, **kw):
    """bounded check: harness h with args ('{seed}' replaced; an int pair (quick, thorough) chooses the number of cases)"""
    def mk(cx):
        a = [str(cx.seed) if x == '{seed}' else str(x[0] if cx.tier == 'quick' else x[1]) if isinstance(x, tuple) else str(x) for x in args]
        def fn():
            rc, out = cx.run_harness(h, a, timeout=120 if cx.tier == 'quick' else 300, **kw)
            return rc == 0, '/verif/harness/%s.cpp %s (exit %s)\n%s' % (h, ' '.join(a), rc, out[-3500:]), dict(bound=what, args=' '.join(a), result=out.strip().split('\n')[-1][-200:])
        return ('%s %s' % (h, ' '.join(a)), fn)
    return mk
def bounded_of(*ms): return lambda cx: [m(cx) for m in ms]
RC = 'random sequential circuits (at most 4 inputs of each kind, 3 flip-flops, 40 gates, 6 cycles) run by the real two parties over a socket and compared with an independent simulator'
def tp(mode, q, t, ot=None): return hb('twoparty', [mode, '{seed}', (q, t)] + ([ot] if ot is not None else []), RC)
def tables(mode, q, t): return hb('tables', [mode, '{seed}', (q, t)], 'random sequential circuits (at most 3 inputs of each kind, 3 flip-flops, 40 gates, 5 cycles): the tables the garbler produces are those of the live non-linear gates, in order, by an independent analysis')
