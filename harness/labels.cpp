// Label generation seen from outside: the real GarbleStr talks to a recording peer; two runs with the same seed and complementary
// inputs reveal every transmitted label pair. Checks: all pairs differ by one offset, its colour bit is 1, it is not the key, labels are
// pairwise different, different seeds give different offsets. Also the label generation functions directly. args: seed cases
#include "common.h"
#include <set>
#include "crypto/OT.h"
#include "crypto/OT_extension.h"
static vector<uint8_t> runG(const Circ& c, int cc, bool low, int bit, uint64_t seed, const string& scd) {
  int sv[2]; if (socketpair(AF_UNIX, SOCK_STREAM, 0, sv)) exit(3); fflush(stdout);
  int eb = (c.sz[2] + 7) / 8, nb = c.sz[5], cyc = cc;
  pid_t p = fork();
  if (!p) { close(sv[0]); alarm(10); SrandSSE(seed); string out; string m = "0";
    vector<int> gi(c.sz[1], bit), gin(c.sz[4] * cc, bit);
    int r = GarbleStr(scd, "0", "0", bits2hex(gi), bits2hex(gin), cc, m, 0, OutputMode::consecutive, true, low, &out, sv[1]); _exit(r == SUCCESS ? 0 : 1); }
  close(sv[1]);
  auto bn = [&](int bits) { vector<int> v(bits, bit); BIGNUM* b = bits2bn(v); int n = BN_num_bytes(b); vector<unsigned char> d(n + 1); BN_bn2bin(b, d.data()); if (write(sv[0], &n, 4) != 4 || write(sv[0], d.data(), n) != n) {} BN_free(b); };
  (void)eb; (void)nb;
  bn(c.sz[2]);
  if (low) for (int i = 0; i < cyc; i++) bn(c.sz[5] * cc); else bn(c.sz[5] * cc);
  vector<uint8_t> all; uint8_t buf[4096]; ssize_t n; while ((n = read(sv[0], buf, sizeof buf)) > 0) all.insert(all.end(), buf, buf + n);
  int st; waitpid(p, &st, 0); close(sv[0]); if (!(WIFEXITED(st) && WEXITSTATUS(st) == 0)) all.clear();
  return all;
}
// GF(2) rank of the labels: a label computed from others (instead of drawn) shows as a dependency
static bool independent(vector<block> v) {
  if (v.size() > 60) v.resize(60); vector<std::pair<uint64_t, uint64_t>> b;
  for (auto x : v) { uint64_t h = bhi(x), l = blo(x); for (auto& p : b) { uint64_t ph = p.first, pl = p.second; bool t = ph ? (h >> (63 - __builtin_clzll(ph)) & 1) : (l >> (63 - __builtin_clzll(pl)) & 1); if (t) { h ^= ph; l ^= pl; } } if (!h && !l) return false; b.push_back({h, l}); }
  return true;
}
int main(int argc, char** argv) {
  uint64_t seed = strtoull(argv[1], 0, 10); int cases = atoi(argv[2]); rs = seed * 0x9E3779B97F4A7C15ULL + 77; for (int i = 0; i < 5; i++) rnd();
  HashInit(); signal(SIGPIPE, SIG_IGN); int fails = 0; std::set<std::pair<uint64_t, uint64_t>> offs; int runs = 0;
  for (int it = 0; it < cases && fails < 4; it++) {
    GenOpt o; o.pub = o.consts = false; o.maxg = 5; Circ c; do { c = gen(o); } while (c.sz[4] + c.sz[5] == 0); c.g.resize(1); c.g[0].type = NOTGATE; c.g[0].input0 = c.isz(); c.g[0].input1 = -1; c.out.assign(1, c.gb()); for (auto& d : c.D) if (d > c.gb()) d = c.isz();
    int cc = 1 + rn(3); bool low = rn(2) && cc > 1; uint64_t s = 1 + rn(1u << 30);
    c.write("l.scd"); vector<uint8_t> a = runG(c, cc, low, 0, s, "l.scd"), b = runG(c, cc, low, 1, s, "l.scd");
    int ni = c.sz[1] + c.sz[2], nn = c.sz[4] + c.sz[5]; vector<size_t> off; size_t at = 16;
    // layout: key, g labels of init, (high) g labels of every cycle, e labels of init, e labels of every cycle
    for (int i = 0; i < ni + (low ? 0 : cc * nn); i++) { off.push_back(at); at += 16; }
    if (low) for (int t = 0; t < cc; t++) { for (int i = 0; i < nn; i++) { off.push_back(at); at += 16; } at += 8 + 2 * c.out.size(); }
    auto blk = [&](vector<uint8_t>& v, size_t p) { block x; memcpy(&x, &v[p], 16); return x; };
    string why; block R = mk(0, 0); std::set<std::pair<uint64_t, uint64_t>> seen;
    if (a.size() < (off.empty() ? 16 : off.back() + 16) || a.size() != b.size()) why = "the garbler failed or sent too little: " + std::to_string(a.size()) + " and " + std::to_string(b.size()) + " bytes";
    else { if (!beq(blk(a, 0), blk(b, 0))) why = "the key depends on the inputs";
      for (size_t i = 0; i < off.size() && why.empty(); i++) { block x = blk(a, off[i]), y = blk(b, off[i]), d = bx(x, y);
        if (i == 0) R = d; else if (!beq(d, R)) why = "label pairs differ by different offsets";
        if (!(blo(d) & 1)) why = "the colour bit of the offset is 0";
        if (beq(d, blk(a, 0))) why = "the offset is the public key";
        if (!seen.insert({bhi(x), blo(x)}).second) why = "two wires share a label"; }
      if (why.empty() && !off.empty()) { vector<block> v; v.push_back(R); v.push_back(blk(a, 0)); for (size_t i = 0; i < off.size(); i++) v.push_back(blk(a, off[i])); if (!independent(v)) why = "labels, offset and key are linearly dependent (not all drawn)"; }
      if (!off.empty()) { offs.insert({bhi(R), blo(R)}); runs++; } }
    if (!why.empty()) { fails++; printf("FAIL case %d: %s: circuit {%s} cycles=%d low_mem=%d seed=%llu\n", it, why.c_str(), c.show().c_str(), cc, low, (unsigned long long)s); }
  }
  if (!fails && runs > 20 && (int)offs.size() < runs - 2) { fails++; printf("FAIL: %d runs with different seeds used only %zu offsets\n", runs, offs.size()); }
  for (int it = 0; it < cases && fails < 4; it++) {
    GarbledCircuit g; memset(&g, 0, sizeof g); g.p_init_size = rn(3); g.g_init_size = rn(4); g.e_init_size = rn(4); g.p_input_size = rn(3); g.g_input_size = rn(4); g.e_input_size = rn(4); g.output_size = rn(3);
    uint64_t cc = 1 + rn(4); block R = rblk(); SrandSSE(it + 1); block *i = 0, *n = 0, *o = 0; short* v = 0; string why;
    auto chk = [&](block* p, size_t k, const char* w) { for (size_t q = 0; q < k; q++) if (!beq(bx(p[2 * q], p[2 * q + 1]), R)) why = string(w) + " pair does not differ by R"; for (size_t q = 0; q < k; q++) for (size_t r = 0; r < q; r++) if (beq(p[2 * q], p[2 * r])) why = string(w) + ": two wires share a label"; };
    if (GarbleMakeLabels(g, &i, &n, &o, &v, R, cc) != SUCCESS) why = "GarbleMakeLabels failed";
    else { chk(i, g.g_init_size + g.e_init_size, "init"); chk(n, cc * (g.g_input_size + g.e_input_size), "input"); if (g.g_init_size + g.e_init_size && g.g_input_size + g.e_input_size && beq(i[0], n[0])) why = "an init and an input wire share a label"; }
    delete[] i; delete[] n; delete[] o; delete[] v; i = n = o = 0; v = 0;
    if (why.empty()) { if (GarbleAllocLabels(g, &i, &n, &o, &v, R) != SUCCESS || GarbleGneInitLabels(g, i, R) != SUCCESS || GarbleGenInputLabels(g, n, R) != SUCCESS) why = "low-memory label generation failed";
      else { chk(i, g.g_init_size + g.e_init_size, "low-memory init"); chk(n, g.g_input_size + g.e_input_size, "low-memory input"); vector<block> old(n, n + 2 * (g.g_input_size + g.e_input_size)); if (!old.empty()) { GarbleGenInputLabels(g, n, R); if (beq(old[0], n[0])) why = "labels reused in the next cycle"; }
        if (why.empty()) { vector<block> v; v.push_back(R); for (size_t q = 0; q < g.g_init_size + g.e_init_size; q++) v.push_back(i[2 * q]); for (size_t q = 0; q < g.g_input_size + g.e_input_size; q++) v.push_back(n[2 * q]); if (!independent(v)) why = "low-memory labels are linearly dependent (not all drawn)"; } }
      delete[] i; delete[] n; delete[] o; delete[] v; }
    if (!why.empty()) { fails++; printf("FAIL direct case %d: %s sizes %d %d %d %d cycles %d\n", it, why.c_str(), (int)g.g_init_size, (int)g.e_init_size, (int)g.g_input_size, (int)g.e_input_size, (int)cc); }
  }
  printf("labels: %d failing, %d runs\n", fails, runs); HashFinish(); return fails ? 1 : 0;
}
