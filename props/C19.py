"""AES-128: key schedule and block encryption follow FIPS-197."""
from gate import *

RK = ('arr', 15, VEC)
KT = S('struct.AES_KEY')
def reg_():
    return Registry().add(Keep('AESEcbEncryptBlks'), Keep('AESSetEncryptKey'), Random())
SB = Function('sbox', BitVecSort(8), BitVecSort(8))
def by(w, i): return Extract(8 * i + 7, 8 * i, w)
def subword(w): return Concat(*[SB(by(w, i)) for i in (3, 2, 1, 0)])
def rotword(w): return RotateRight(w, 8)         # little-endian word: byte 0 moves to the top
def words(v): return [Extract(32 * i + 31, 32 * i, v) for i in range(4)]
def apps(ts, name):
    out = {}; st = list(ts); seen = set()
    while st:
        x = st.pop()
        if x.get_id() in seen: continue
        seen.add(x.get_id())
        if is_app(x):
            if x.decl().name() == name: out[x.get_id()] = x
            st.extend(x.children())
    return list(out.values())

def schedule(cx, mod):
    def gen():
        ex = new_exec(mod, reg_(), 'bv'); st = State(); st.gh = dict(ex.ghost_init); ex.top = 'AESSetEncryptKey'
        fn = find_fn(mod, 'AESSetEncryptKey')
        if fn is None: raise Unsupported('AESSetEncryptKey not found')
        ur = Region('userkey', VEC, ex.ival(1), 'param'); up = Ptr(ur, (ex.zero(),))
        kr = Region('key', KT, ex.ival(1), 'param'); kp = Ptr(kr, (ex.zero(),))
        K = ex.load(st, up, VEC)
        ret, fin = ex.run(fn, [up, BitVecVal(128, 32), kp], st)
        rks = [peek(ex, fin, kp, KT, 0, i) for i in range(11)]
        ax = []
        for t in apps(rks, 'aeskeygenassist'):
            X = words(t.arg(0)); rc = BitVecVal(t.arg(1).as_long(), 32)
            sx1, sx3 = subword(X[1]), subword(X[3])
            ax.append(t == Concat(rotword(sx3) ^ rc, sx3, rotword(sx1) ^ rc, sx1))
        for f in ax: ex.axiom(fin, f)
        w = words(rks[0])
        ex.oblige(fin, 'post', 'round key 0 is the cipher key', rks[0] == K)
        rcon = 1
        for r in range(1, 11):
            p = words(rks[r - 1]); c = words(rks[r])
            ex.oblige(fin, 'post', 'round key %d word 0 follows the FIPS-197 key schedule' % r, c[0] == p[0] ^ rotword(subword(p[3])) ^ BitVecVal(rcon, 32))
            for i in (1, 2, 3): ex.oblige(fin, 'post', 'round key %d word %d follows the FIPS-197 key schedule' % (r, i), c[i] == p[i] ^ c[i - 1])
            rcon = (rcon << 1) ^ (0x11b if rcon & 0x80 else 0)
        ex.oblige(fin, 'post', 'AES-128 uses 10 rounds', peek(ex, fin, kp, KT, 1) == 10)
        ex.oblige(fin, 'frame', 'the cipher key is unchanged', peek(ex, fin, up, VEC) == K)
        return ex.obls, [('exit', fin.facts.all(), list(fin.pc))]
    return gen

def enc(x, ks):
    B = BitVecSort(128)
    f = Function('aesenc', B, B, B); l = Function('aesenclast', B, B, B)
    x = x ^ ks[0]
    for r in range(1, 10): x = f(x, ks[r])
    return l(x, ks[10])

def blocks(cx, mod, n):
    def gen():
        ex = new_exec(mod, reg_(), 'bv'); st = State(); st.gh = dict(ex.ghost_init); ex.top = 'AESEcbEncryptBlks(n=%s)' % n
        fn = find_fn(mod, 'AESEcbEncryptBlks')
        if fn is None: raise Unsupported('AESEcbEncryptBlks not found')
        br = Region('blks', VEC, ex.ival(n), 'param'); bp = Ptr(br, (ex.zero(),))
        kr = Region('key', KT, ex.ival(1), 'param'); kp = Ptr(kr, (ex.zero(),))
        ex.store(st, ex.field(kp, KT, 1), I(32), BitVecVal(10, 32))
        old = [peek(ex, st, at(ex, bp, VEC, i), VEC) for i in range(n)]
        ks = [peek(ex, st, kp, KT, 0, i) for i in range(15)]
        ret, fin = ex.run(fn, [bp, BitVecVal(n, 32), kp], st)
        for i in range(n):
            ex.oblige(fin, 'post', 'block %d of %d becomes the FIPS-197 encryption of the block under the schedule' % (i, n), peek(ex, fin, at(ex, bp, VEC, i), VEC) == enc(old[i], ks))
        for i in range(11): ex.oblige(fin, 'frame', 'round key %d unchanged' % i, peek(ex, fin, kp, KT, 0, i) == ks[i])
        return ex.obls, [('exit', fin.facts.all(), list(fin.pc))]
    return gen

class Blocks(Contract):
    """AESEcbEncryptBlks for any number of blocks"""
    name = 'AESEcbEncryptBlks'; unit = 'blocks, any number'; params = ('blks', 'n', 'key')
    def setup(self, ex, st, fn):
        self.n = ex.nn(Int('nblks')); ex.axiom(st, self.n >= 0); self.br = Region('blks', VEC, self.n, 'param'); self.kr = Region('key', KT, ex.ival(1), 'param'); z = ex.zero()
        self.kp = Ptr(self.kr, (z,)); ex.store(st, ex.field(self.kp, KT, 1), I(32), IntVal(10)); self.old = ex.getmem(st, self.br, (), VEC)
        return [Ptr(self.br, (z,)), self.n, self.kp]
    def mods(self, k): return [('region', self.br), ('cell', k.ex.field(self.kp, KT, 1), I(32))]
    def post(self, k):
        ex = k.ex; i = Int('bi'); ks = [peek(ex, k.old, self.kp, KT, 0, j) for j in range(15)]; b = ex.getmem(k.new, self.br, (), VEC)
        return [('every block becomes its FIPS-197 encryption under the schedule', ForAll([i], Implies(And(i >= 0, i < self.n), b.read((i,)) == enc(self.old.read((i,)), ks)))),
                ('the number of rounds is unchanged', peek(ex, k.new, self.kp, KT, 1) == 10),
                ('blocks outside the batch are unchanged', ForAll([i], Implies(Or(i < 0, i >= self.n), b.read((i,)) == self.old.read((i,)))))]
def units(cx):
    mod = cx.module(reg_(), key='aes', srcs=['garbled_circuit/garbled_circuit_util.cpp', 'garbled_circuit/garbled_circuit_high_mem.cpp'])
    cx.under_contract('AESSetEncryptKey', 'AESEcbEncryptBlks')
    cx.trust('Intel SDM semantics of AESENC/AESENCLAST (one FIPS-197 round) and AESKEYGENASSIST; the S-box itself is uninterpreted')
    cx.assume('key length 128 bits (the only length the product uses)')
    def anyn():
        c = Blocks(); v = verify(mod, reg_(), c, 'int'); cx.trust(*sorted(v.ex.assumed)); return v.obls, v.covers
    return [(Blocks.unit, anyn), ('key schedule', schedule(cx, mod))] + [('blocks n=%d' % n, blocks(cx, mod, n)) for n in (1, 2, 4)]

def replay(cx):
    rc, out = cx.run_harness('aes', [cx.seed])
    return rc != 0, '/verif/harness/aes.cpp %d (exit %s)\n%s' % (cx.seed, rc, out[-3000:])
