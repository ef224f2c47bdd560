#ifndef VH_COMMON_H
#define VH_COMMON_H
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <cstdint>
#include <csignal>
#include <malloc.h>
#include <unistd.h>
#include <poll.h>
#include <sys/socket.h>
#include <sys/wait.h>
#include <sys/ioctl.h>
#include <string>
#include <vector>
#include <sstream>
#include <fstream>
#include <iostream>
#include <functional>
#include <openssl/bn.h>
#include "util/common.h"
#include "util/util.h"
#include "util/log.h"
#include "crypto/aes.h"
#include "crypto/BN.h"
#include "crypto/block.h"
#include "scd/scd.h"
#include "garbled_circuit/garbled_circuit.h"
#include "garbled_circuit/garbled_circuit_util.h"
#include "garbled_circuit/garbled_circuit_high_mem.h"
#include "garbled_circuit/garbled_circuit_low_mem.h"
using std::string; using std::vector;
extern std::ostream* log_map[2];
static struct LogSink { std::ostream nul; LogSink() : nul(nullptr) { log_map[0] = log_map[1] = getenv("VH_VERBOSE") ? &std::cerr : &nul; } } log_sink;
static uint64_t rs = 88172645463325252ULL;
static uint64_t rnd() { rs ^= rs << 13; rs ^= rs >> 7; rs ^= rs << 17; return rs * 2685821657736338717ULL; }
static uint64_t rn(uint64_t n) { return n ? (rnd() >> 11) % n : 0; }
static block mk(uint64_t hi, uint64_t lo) { uint64_t a[2] = {lo, hi}; block b; memcpy(&b, a, 16); return b; }
static uint64_t blo(block b) { uint64_t a[2]; memcpy(a, &b, 16); return a[0]; }
static uint64_t bhi(block b) { uint64_t a[2]; memcpy(a, &b, 16); return a[1]; }
static bool beq(block a, block b) { return blo(a) == blo(b) && bhi(a) == bhi(b); }
static block bx(block a, block b) { return mk(bhi(a) ^ bhi(b), blo(a) ^ blo(b)); }
static block rblk() { return mk(rnd(), rnd()); }
static BIGNUM* bits2bn(const vector<int>& v) { BIGNUM* b = BN_new(); BN_zero(b); for (size_t i = 0; i < v.size(); i++) if (v[i]) BN_set_bit(b, i); return b; }
static vector<int> bn2bits(BIGNUM* b, size_t n) { vector<int> v(n); for (size_t i = 0; i < n; i++) v[i] = BN_is_bit_set(b, i); return v; }
static string bs(const vector<int>& v) { string s; for (int x : v) s += char('0' + (x & 1)); return s; }
static vector<int> rbits(size_t n) { vector<int> v(n); for (auto& x : v) x = rnd() >> 20 & 1; return v; }
static string bits2hex(const vector<int>& v) { BIGNUM* b = bits2bn(v); char* c = BN_bn2hex(b); string s = c; OPENSSL_free(c); BN_free(b); return s; }
static int gateval(int t, int a, int b) {
  switch (t) { case ANDGATE: return a & b; case ANDNGATE: return a & !b; case NANDGATE: return !(a & b); case NANDNGATE: return !(a & !b);
    case ORGATE: return a | b; case ORNGATE: return a | !b; case NORGATE: return !(a | b); case NORNGATE: return !(a | !b);
    case XORGATE: return a ^ b; case XNORGATE: return !(a ^ b); case NOTGATE: return !a; }
  return 0;
}
static const int TYPES[] = {ANDGATE, ANDNGATE, NANDGATE, NANDNGATE, ORGATE, ORNGATE, NORGATE, NORNGATE, XORGATE, XNORGATE, NOTGATE};
static const char* tname(int t) { const char* n[] = {"AND", "ANDN", "NAND", "NANDN", "OR", "ORN", "NOR", "NORN", "XOR", "XNOR", "NOT"}; for (int i = 0; i < 11; i++) if (TYPES[i] == t) return n[i]; return "?"; }
struct Circ {
  int sz[6]; int dff; vector<int64_t> out, D, I; int64_t term; vector<GarbledGate> g;
  int isz() const { return sz[0] + sz[1] + sz[2]; }
  int insz() const { return sz[3] + sz[4] + sz[5]; }
  int gb() const { return isz() + insz() + dff; }
  int wires() const { return gb() + g.size(); }
  string show() const {
    std::ostringstream s; s << "sizes(p_init,g_init,e_init,p_in,g_in,e_in,dff)=";
    for (int i = 0; i < 6; i++) s << sz[i] << ","; s << dff << " terminate=" << term << " gates:";
    for (size_t i = 0; i < g.size(); i++) s << " w" << g[i].output << "=" << tname(g[i].type) << "(" << g[i].input0 << "," << g[i].input1 << ")";
    s << " outputs:"; for (auto o : out) s << " " << o; s << " D:"; for (auto o : D) s << " " << o; s << " I:"; for (auto o : I) s << " " << o; return s.str();
  }
  void fill(GarbledCircuit* c) {
    memset(c, 0, sizeof *c);
    c->p_init_size = sz[0]; c->g_init_size = sz[1]; c->e_init_size = sz[2]; c->p_input_size = sz[3]; c->g_input_size = sz[4]; c->e_input_size = sz[5];
    c->dff_size = dff; c->output_size = out.size(); c->terminate_id = term; c->gate_size = g.size();
    c->garbledGates = g.data(); c->outputs = out.data(); c->D = D.data(); c->I = I.data();
  }
  void write(const string& f) const {
    std::ofstream s(f); for (int i = 0; i < 6; i++) s << sz[i] << " "; s << dff << " " << out.size() << " " << term << " " << g.size() << "\n";
    for (auto& x : g) s << x.input0 << " "; s << "\n"; for (auto& x : g) s << x.input1 << " "; s << "\n"; for (auto& x : g) s << x.type << " "; s << "\n";
    for (auto o : out) s << o << " "; s << "\n"; for (auto o : D) s << o << " "; s << "\n"; for (auto o : I) s << o << " "; s << "\n";
  }
};
struct GenOpt { int maxsz = 3, maxdff = 3, maxg = 14; bool pub = true, consts = true, term = false; };
static Circ gen(const GenOpt& o) {
  Circ c; for (;;) {
    c = Circ(); for (int i = 0; i < 6; i++) c.sz[i] = rn(o.maxsz + 1);
    if (!o.pub) c.sz[0] = c.sz[3] = 0;
    c.dff = rn(o.maxdff + 1); if (c.dff == 0) c.sz[0] = c.sz[1] = c.sz[2] = 0;
    if (c.insz() + c.dff > 0) break;
  }
  int lo = c.isz(), n = 1 + rn(o.maxg);     // wires below lo are init ports (only reachable through I)
  bool special = rn(3) == 0;
  for (int i = 0; i < n; i++) {
    GarbledGate g; memset(&g, 0, sizeof g); int top = c.gb() + i;
    auto pick = [&]() -> int64_t { if (o.consts && rn(14) == 0) return rn(2) ? CONST_ZERO : CONST_ONE; if (i && rn(2)) return c.gb() + rn(i); return lo + rn(top - lo); };
    g.type = TYPES[rn(11)]; if (special && rn(2)) g.type = TYPES[8 + rn(3)];
    g.input0 = pick(); g.input1 = rn(6) == 0 ? g.input0 : pick(); if (g.type == NOTGATE) g.input1 = -1;
    g.output = top; c.g.push_back(g);
  }
  vector<int> used(c.wires(), 0); for (auto& g : c.g) { if (g.input0 >= 0) used[g.input0] = 1; if (g.input1 >= 0) used[g.input1] = 1; }
  for (int i = 0; i < c.dff; i++) {
    int64_t d = o.consts && rn(12) == 0 ? (rn(2) ? CONST_ZERO : CONST_ONE) : lo + rn(c.wires() - lo);
    for (int t = 0; t < 3 && d >= 0 && used[d]; t++) d = lo + rn(c.wires() - lo);
    if (d >= 0) used[d] = 1; c.D.push_back(d);
    c.I.push_back(c.isz() && rn(5) ? (int64_t)rn(c.isz()) : (rn(2) ? CONST_ZERO : CONST_ONE));
  }
  for (int w = c.gb(); w < c.wires(); w++) if (!used[w]) c.out.push_back(w);
  int extra = rn(3); for (int i = 0; i < extra || c.out.empty(); i++) c.out.push_back(lo + rn(c.wires() - lo));
  for (size_t i = c.out.size(); i-- > 1;) std::swap(c.out[i], c.out[rn(i + 1)]);
  c.term = 0; if (o.term) { int w; do w = rn(4) ? c.gb() + rn(c.g.size()) : lo + rn(c.wires() - lo); while (w <= 0); c.term = w; }
  return c;
}
struct In { vector<int> pi, gi, ei, pin, gin, ein; };
static In geninp(const Circ& c, int cc) { In x; x.pi = rbits(c.sz[0]); x.gi = rbits(c.sz[1]); x.ei = rbits(c.sz[2]); x.pin = rbits(c.sz[3] * cc); x.gin = rbits(c.sz[4] * cc); x.ein = rbits(c.sz[5] * cc);
  int z = rn(8); if (z == 0) { std::fill(x.gin.begin(), x.gin.end(), 0); std::fill(x.pin.begin(), x.pin.end(), 0); } if (z == 1) std::fill(x.ein.begin(), x.ein.end(), 0); if (z == 2) { std::fill(x.ein.begin(), x.ein.end(), 1); std::fill(x.gin.begin(), x.gin.end(), 1); } return x; }
// reference semantics: returns all output bits (cc * outputs), executed cycles in *ran
static vector<int> simulate(const Circ& c, const In& x, int cc, int period, int* ran) {
  vector<int> w(c.wires(), 0), out; 
  for (int t = 0; t < cc; t++) {
    vector<int> q(c.dff);
    for (int i = 0; i < c.dff; i++) {
      if (t == 0) { int64_t s = c.I[i]; q[i] = s == CONST_ZERO ? 0 : s == CONST_ONE ? 1 : s < c.sz[0] ? x.pi[s] : s < c.sz[0] + c.sz[1] ? x.gi[s - c.sz[0]] : x.ei[s - c.sz[0] - c.sz[1]]; }
      else { int64_t s = c.D[i]; q[i] = s == CONST_ZERO ? 0 : s == CONST_ONE ? 1 : w[s]; }
    }
    int b = c.isz(); for (int i = 0; i < c.sz[3]; i++) w[b++] = x.pin[t * c.sz[3] + i]; for (int i = 0; i < c.sz[4]; i++) w[b++] = x.gin[t * c.sz[4] + i]; for (int i = 0; i < c.sz[5]; i++) w[b++] = x.ein[t * c.sz[5] + i];
    for (int i = 0; i < c.dff; i++) w[b++] = q[i];
    for (auto& g : c.g) { auto v = [&](int64_t s) { return s == CONST_ZERO ? 0 : s == CONST_ONE ? 1 : s < 0 ? 0 : w[s]; }; w[g.output] = gateval(g.type, v(g.input0), v(g.input1)); }
    for (auto o : c.out) out.push_back(w[o]);
    *ran = t + 1;
    if (period && c.term > 0 && t % period == 0 && w[c.term]) break;
  }
  return out;
}
// run fn in a child with a time limit; the child's returned string is passed back; false = crash or time-out
static bool with_child(const std::function<string(int)>& child, const std::function<string(int)>& parent, int ms, string* cs, string* ps) {
  // two children over a socketpair, so that a crash or hang of either side is contained
  int sv[2]; if (socketpair(AF_UNIX, SOCK_STREAM, 0, sv)) { perror("socketpair"); exit(3); }
  int pp[2][2]; pid_t pid[2];
  for (int k = 0; k < 2; k++) {
    if (pipe(pp[k])) exit(3);
    fflush(stdout);
    pid[k] = fork();
    if (!pid[k]) { close(sv[1 - k]); close(pp[k][0]); if (!getenv("VH_VERBOSE")) { if (!freopen("/dev/null", "w", stderr)) {} } string r = (k ? child : parent)(sv[k]);
      int left = 0; usleep(0); 
      size_t o = 0; while (o < r.size()) { ssize_t n = write(pp[k][1], r.data() + o, r.size() - o); if (n <= 0) break; o += n; } (void)left; _exit(0); }
    close(pp[k][1]);
  }
  close(sv[0]); close(sv[1]);
  string out[2]; bool ok = true; bool open_[2] = {true, true}; int elapsed = 0;
  struct timespec t0; clock_gettime(CLOCK_MONOTONIC, &t0);
  while (open_[0] || open_[1]) {
    struct pollfd pf[2]; int m = 0; int who[2]; for (int k = 0; k < 2; k++) if (open_[k]) { pf[m].fd = pp[k][0]; pf[m].events = POLLIN; who[m++] = k; }
    struct timespec t1; clock_gettime(CLOCK_MONOTONIC, &t1); elapsed = (t1.tv_sec - t0.tv_sec) * 1000 + (t1.tv_nsec - t0.tv_nsec) / 1000000;
    if (elapsed >= ms) { ok = false; break; }
    int r = poll(pf, m, ms - elapsed); if (r <= 0) { ok = false; break; }
    for (int j = 0; j < m; j++) if (pf[j].revents) { char buf[4096]; ssize_t n = read(pp[who[j]][0], buf, sizeof buf); if (n <= 0) open_[who[j]] = false; else out[who[j]].append(buf, n); }
  }
  for (int k = 0; k < 2; k++) { if (!ok) kill(pid[k], SIGKILL); int st; waitpid(pid[k], &st, 0); if (!(WIFEXITED(st) && WEXITSTATUS(st) == 0)) ok = false; close(pp[k][0]); }
  *ps = out[0]; *cs = out[1]; return ok;
}
#endif
