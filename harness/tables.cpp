// Which tables does the garbler produce? Random sequential circuits against an independent dead-gate / free-gate analysis. args: mode(hm|lm) seed cases
#include "common.h"
#include <set>
struct Sym { bool pub; int v; std::set<int> s; };     // public value, or xor of base wires (^ v)
static vector<vector<uint32_t>> expected(const Circ& c, const In& x, int cc) {
  vector<Sym> w(c.wires()); vector<vector<uint32_t>> res; int base = 0;
  auto pubv = [](int v) { Sym s; s.pub = true; s.v = v; return s; };
  auto fresh = [&]() { Sym s; s.pub = false; s.v = 0; s.s.insert(base++); return s; };
  vector<Sym> inits; for (int i = 0; i < c.isz(); i++) inits.push_back(i < c.sz[0] ? pubv(x.pi[i]) : fresh());
  for (int t = 0; t < cc; t++) {
    vector<Sym> q(c.dff);
    for (int i = 0; i < c.dff; i++) { int64_t s = t ? c.D[i] : c.I[i]; q[i] = s == CONST_ZERO ? pubv(0) : s == CONST_ONE ? pubv(1) : t ? w[s] : inits[s]; }
    int b = c.isz(); for (int i = 0; i < c.sz[3]; i++) w[b++] = pubv(x.pin[t * c.sz[3] + i]); for (int i = 0; i < c.sz[4] + c.sz[5]; i++) w[b++] = fresh();
    for (int i = 0; i < c.dff; i++) w[b++] = q[i];
    vector<bool> table(c.g.size(), false);
    for (size_t i = 0; i < c.g.size(); i++) {
      auto& g = c.g[i]; auto in = [&](int64_t s) { return s == CONST_ZERO ? pubv(0) : s == CONST_ONE ? pubv(1) : w[s]; };
      Sym a = in(g.input0), e = g.type == NOTGATE ? pubv(0) : in(g.input1), o; bool lin = g.type == XORGATE || g.type == XNORGATE || g.type == NOTGATE;
      auto f = [&](int p, int r) { return gateval(g.type, p, r); };
      if (a.pub && e.pub) o = pubv(f(a.v, e.v));
      else if (a.pub || e.pub) { Sym& s = a.pub ? e : a; int v0 = a.pub ? f(a.v, 0) : f(0, e.v), v1 = a.pub ? f(a.v, 1) : f(1, e.v); if (v0 == v1) o = pubv(v0); else { o = s; o.v ^= v0; } }
      else if (lin) { o = a; o.v = a.v ^ e.v ^ (g.type == XNORGATE); for (int z : e.s) if (!o.s.erase(z)) o.s.insert(z); if (o.s.empty()) o = pubv(o.v); }
      else if (a.s == e.s) { int v0 = f(a.v, e.v), v1 = f(!a.v, !e.v); if (v0 == v1) o = pubv(v0); else { o = a; o.v = v0; } }
      else { o = fresh(); table[i] = true; }
      w[g.output] = o;
    }
    vector<bool> live(c.g.size(), false); auto ref = [&](int64_t s) { if (s >= c.gb() && !w[s].pub) live[s - c.gb()] = true; };
    for (auto o : c.out) ref(o); for (auto d : c.D) ref(d); if (c.term > 0) ref(c.term);
    for (size_t i = c.g.size(); i-- > 0;) if (live[i]) { ref(c.g[i].input0); ref(c.g[i].input1); }
    vector<uint32_t> r; for (size_t i = 0; i < c.g.size(); i++) if (table[i] && live[i]) r.push_back(i);
    res.push_back(r);
  }
  return res;
}
static string show(const vector<uint32_t>& v) { std::ostringstream s; for (auto x : v) s << "g" << x << " "; return s.str(); }
int main(int argc, char** argv) {
  string mode = argv[1]; uint64_t seed = strtoull(argv[2], 0, 10); int cases = atoi(argv[3]), fails = 0;
  rs = seed * 0x9E3779B97F4A7C15ULL + 1; for (int i = 0; i < 5; i++) rnd();
  SrandSSE(seed); srand(seed);
  for (int it = 0; it < cases && fails < 4; it++) {
    GenOpt o; if (rn(6) == 0) o.maxg = 40; o.term = rn(3) == 0; Circ c = gen(o); int cc = 1 + rn(5); In x = geninp(c, cc);
    GarbledCircuit gc; c.fill(&gc); if (FillFanout(&gc) != SUCCESS) { printf("FAIL FillFanout rejects {%s}\n", c.show().c_str()); fails++; continue; }
    auto want = expected(c, x, cc); vector<vector<uint32_t>> got; block R = rblk(); *((short*)&R) |= 1; block key = rblk();
    BIGNUM *pi = bits2bn(x.pi), *pin = bits2bn(x.pin); int ni = c.sz[1] + c.sz[2], ns = c.sz[4] + c.sz[5], no = c.out.size();
    auto pairs = [&](int n) { vector<block> v(2 * n + 2); for (int i = 0; i < n; i++) { v[2 * i] = rblk(); v[2 * i + 1] = bx(v[2 * i], R); } return v; };
    vector<block> il = pairs(ni); uint64_t nx = 0; for (auto& g : c.g) nx += g.type != XORGATE && g.type != XNORGATE && g.type != NOTGATE;
    if (mode == "hm") {
      vector<block> nl = pairs(ns * cc), ol(2 * no * cc); vector<short> ov(no * cc); uint64_t n = cc; int sv[2]; if (socketpair(AF_UNIX, SOCK_STREAM, 0, sv)) return 3;
      int r = GarbleHighMem(gc, pi, pin, il.data(), nl.data(), key, R, &n, 0, sv[0], ol.data(), ov.data()); close(sv[0]);
      string all; char buf[4096]; ssize_t k; while ((k = read(sv[1], buf, sizeof buf)) > 0) all.append(buf, k); close(sv[1]); if (r != SUCCESS) all.clear();
      size_t p = 0; for (int t = 0; t < cc && p + 8 <= all.size(); t++) { uint64_t m; memcpy(&m, &all[p], 8); p += 8; vector<uint32_t> v; for (uint64_t j = 0; j < m && p + sizeof(GarbledTable) <= all.size(); j++, p += sizeof(GarbledTable)) { GarbledTable tb; memcpy(&tb, &all[p], sizeof tb); v.push_back(tb.gid); } if (m != v.size()) v.push_back(99999); got.push_back(v); }
    } else {
      vector<GarbledTable> tt(nx + 1), tb(nx + 1); AES_KEY K; AESSetEncryptKey((unsigned char*)&key, 128, &K); int W = c.wires();
      vector<BlockPair> wi(W + 1), la(c.dff + 1); vector<short> wv(W + 1, SECRET), lv(W + 1, SECRET); vector<int> fan(c.g.size() + 1); BlockPair tl; short tv; vector<block> ol(2 * no + 2); vector<short> ov(no + 1);
      for (int t = 0; t < cc; t++) { vector<block> nl = pairs(ns); uint64_t m = 0; GarbleLowMem(gc, pi, pin, il.data(), nl.data(), tt.data(), tb.data(), &m, R, K, t, -1, wi.data(), wv.data(), la.data(), lv.data(), fan.data(), &tl, &tv, ol.data(), ov.data());
        vector<uint32_t> v; for (uint64_t j = 0; j < m && j < nx; j++) v.push_back(tb[j].gid); if (m != v.size()) v.push_back(99999); got.push_back(v); }
    }
    BN_free(pi); BN_free(pin);
    if (got != want) { fails++; for (int t = 0; t < cc; t++) { vector<uint32_t> g = t < (int)got.size() ? got[t] : vector<uint32_t>{99998}; if (g != want[t]) { printf("FAIL %s case %d: circuit {%s} p_init=%s p_in=%s cycle %d: tables produced for [%s], live non-linear gates are [%s]\n", mode.c_str(), it, c.show().c_str(), bs(x.pi).c_str(), bs(x.pin).c_str(), t, show(g).c_str(), show(want[t]).c_str()); break; } } }
  }
  printf("tables-%s: %d failing cases of %d\n", mode.c_str(), fails, cases);
  return fails ? 1 : 0;
}
