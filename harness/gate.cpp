// Replay of gate-level counterexamples on the real GarbleGate / EvalGate. args: mode(c01|c02|c18|c20|c25) seed
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <cstdint>
#include <vector>
#include <string>
#include <openssl/evp.h>
#include "util/common.h"
#include "util/util.h"
#include "crypto/aes.h"
#include "crypto/block.h"
#include "garbled_circuit/garbled_circuit_util.h"
using std::string; using std::vector;
static uint64_t rs;
static uint64_t rnd() { rs ^= rs << 13; rs ^= rs >> 7; rs ^= rs << 17; return rs * 2685821657736338717ULL; }
static block mk(uint64_t hi, uint64_t lo) { uint64_t a[2] = {lo, hi}; block b; memcpy(&b, a, 16); return b; }
static uint64_t lo(block b) { uint64_t a[2]; memcpy(a, &b, 16); return a[0]; }
static uint64_t hi(block b) { uint64_t a[2]; memcpy(a, &b, 16); return a[1]; }
static block X(block a, block b) { return mk(hi(a) ^ hi(b), lo(a) ^ lo(b)); }
static bool eq(block a, block b) { return lo(a) == lo(b) && hi(a) == hi(b); }
static block rb() { return mk(rnd(), rnd()); }
struct T { const char* n; int code; int tt[4]; };  // tt[a*2+b]
static T G[] = {{"AND", ANDGATE, {0,0,0,1}}, {"ANDN", ANDNGATE, {0,0,1,0}}, {"NAND", NANDGATE, {1,1,1,0}}, {"NANDN", NANDNGATE, {1,1,0,1}},
 {"OR", ORGATE, {0,1,1,1}}, {"ORN", ORNGATE, {1,0,1,1}}, {"NOR", NORGATE, {1,0,0,0}}, {"NORN", NORNGATE, {0,1,0,0}},
 {"XOR", XORGATE, {0,1,1,0}}, {"XNOR", XNORGATE, {1,0,0,1}}, {"NOT", NOTGATE, {1,1,0,0}}};
static AES_KEY key; static unsigned char rawkey[16];
static EVP_CIPHER_CTX* ectx;
static block refaes(block b) { unsigned char o[32]; int l; EVP_EncryptUpdate(ectx, o, &l, (unsigned char*)&b, 16); block r; memcpy(&r, o, 16); return r; }
static block H(block l, uint64_t cid, uint64_t tw) { block k = X(l, mk(cid, tw)); return X(refaes(k), k); }
static int fails = 0;
static void hx(const char* n, block b) { printf(" %s=%016lx%016lx", n, hi(b), lo(b)); }
int main(int argc, char** argv) {
  string mode = argc > 1 ? argv[1] : "c01"; rs = argc > 2 ? strtoull(argv[2], 0, 10) * 7919 + 12345 : 12345; 
  int iters = argc > 3 ? atoi(argv[3]) : 400;
  for (int i = 0; i < 16; i++) rawkey[i] = rnd();
  memset(&key, 0, sizeof key); AES128KeyExpansion(rawkey, &key); key.rounds = 10;   // same initialisation as AESSetEncryptKey for 128 bits
  AESSetEncryptKey(rawkey, 128, &key);
  ectx = EVP_CIPHER_CTX_new(); EVP_EncryptInit_ex(ectx, EVP_aes_128_ecb(), 0, rawkey, 0); EVP_CIPHER_CTX_set_padding(ectx, 0);
  vector<uint64_t> ids = {0, 1, 2, 3, 7, 255, 256, 65535, 65536, (1u << 24) - 1, 1u << 24, (1u << 31) - 1, 1u << 31, 0xffffffffu};
  for (int it = 0; it < iters; it++) for (auto& g : G) for (int cs = 0; cs < 4; cs++) for (int vv = 0; vv < 4; vv++) {
    int v[2] = {vv & 1, vv >> 1}; bool sec[2] = {!!(cs & 1), !!(cs >> 1)};
    int out = g.tt[v[0] * 2 + v[1]];
    block R = rb(); R = mk(hi(R), lo(R) | 1);
    if (rnd() % 8 == 0) R = mk(hi(R), 1);          // low half nearly zero
    int rel = rnd() % 6; // relation of the two secret wires
    int inv[2] = {(int)(rnd() & 1), (int)(rnd() & 1)};
    block Z[2]; Z[0] = rb(); Z[1] = rb();
    if (rnd() % 6 == 0) Z[0] = mk(0, 0);
    // canonical value u of a wire = v ^ inv; equal canonical labels mean equal canonical values
    if (sec[0] && sec[1]) {
      if (rel == 0) { Z[1] = Z[0]; inv[1] = inv[0] ^ v[0] ^ v[1]; }
      else if (rel == 1) Z[1] = mk(hi(Z[0]) ^ (1 + rnd()), lo(Z[0]));   // share the low half only
      else if (rel == 2) Z[1] = mk(hi(Z[0]), lo(Z[0]) ^ (rnd() | 1));   // share the high half only
      else if (rel == 3) Z[1] = mk(hi(Z[0]) ^ (1 + rnd() % 1000), lo(Z[0]) ^ lo(R));
      else if (rel == 4) Z[1] = mk(hi(Z[0]) ^ hi(R), lo(Z[0]) ^ (lo(R) + 2));
    }
    BlockPair in[2]; short gv[2], ev[2]; block held[2];
    for (int i = 0; i < 2; i++) {
      block l0 = inv[i] ? X(Z[i], R) : Z[i];
      in[i].label0 = l0; in[i].label1 = X(l0, R); held[i] = v[i] ? in[i].label1 : in[i].label0;
      gv[i] = sec[i] ? SECRET : v[i]; ev[i] = sec[i] ? (inv[i] ? SECRET_INV : SECRET) : v[i];
      if (!sec[i]) { in[i].label0 = rb(); in[i].label1 = rb(); held[i] = rb(); }
    }
    uint64_t cid = rnd() % 3 ? rnd() % 1000 : ids[rnd() % ids.size()] + (rnd() % 4 == 0 ? (rnd() << 30) : 0), gid = rnd() % 2 ? ids[rnd() % ids.size()] : rnd() % 100000;
    GarbledTable gt[4], et[4]; memset(gt, 0, sizeof gt); memset(et, 0, sizeof et);
    for (int i = 0; i < 4; i++) gt[i].gid = 0x5a5a5a00 + i;
    uint64_t gi = 1, ei = 1; BlockPair go; short gvo = 77, evo = 77; block eo = rb();
    GarbleGate(in[0], gv[0], in[1], gv[1], g.code, cid, gid, gt, &gi, R, key, &go, &gvo);
    bool emitted = gi != 1;
    for (int i = 0; i < 4; i++) { et[i] = gt[i]; }
    if (!emitted) { et[1].gid = (uint32_t)gid + 1; et[1].row[0] = rb(); et[1].row[1] = rb(); }
    EvalGate(held[0], ev[0], held[1], ev[1], g.code, cid, gid, et, &ei, key, &eo, &evo);
    string why; bool gsec = gvo != 0 && gvo != 1, esec = evo != 0 && evo != 1;
    bool linear = g.code == XORGATE || g.code == XNORGATE || g.code == NOTGATE;
    bool related = sec[0] && sec[1] && (eq(in[0].label0, in[1].label0) || eq(in[0].label0, in[1].label1));
    if (mode == "c01") {
      if (gsec != esec) why = "parties disagree on secrecy of the output";
      else if (!gsec && (gvo != out || evo != out)) why = "public output value differs from the gate function";
      else if (gsec && !eq(X(go.label0, go.label1), R)) why = "output labels do not differ by the global offset";
      else if (gsec && !eq(eo, out ? go.label1 : go.label0)) why = "evaluator's label decodes to the wrong value";
      else if (gsec && evo != SECRET && evo != SECRET_INV) why = "evaluator's output value is not a wire state";
      else if (gsec && !emitted) {   // linear output: the evaluator's parity must match the garbler's label relative to the underlying labels
        block base = !sec[0] ? Z[1] : !sec[1] || g.code == NOTGATE || (related && g.code != XORGATE && g.code != XNORGATE) ? Z[0] : X(Z[0], Z[1]);
        if (!eq(go.label0, evo == SECRET_INV ? X(base, R) : base)) why = "evaluator's parity of an inverted wire is wrong";
      }
      else if (gsec && evo != SECRET) why = "evaluator marks a fresh wire as inverted";
      if (why.empty() && gsec && gi != ei) why = "table indices out of step";
    } else if (mode == "c02") {
      bool dep = false;
      if (!sec[0] && !sec[1]) dep = false;
      else if (!sec[0] && sec[1]) dep = g.tt[v[0]*2] != g.tt[v[0]*2+1];
      else if (sec[0] && !sec[1]) dep = g.tt[v[1]] != g.tt[2+v[1]];
      else dep = true;
      if (!dep && (gsec || esec)) why = "output fixed by the public inputs is treated as secret";
      else if (!dep && (gvo != out || evo != out)) why = "public output value differs from the gate function";
      else if ((!sec[0] || !sec[1]) && emitted) why = "a table was produced although an input is public";
      else if (dep && !(sec[0] && sec[1]) && !gsec) why = "a value depending on a secret input was made public";
      else if (sec[0] && sec[1] && !related && g.code != NOTGATE && !gsec) why = "a value depending on a secret input was made public";
      else if (g.code == NOTGATE && sec[0] && !gsec) why = "a value depending on a secret input was made public";
      if (gsec != esec) why = "parties disagree on which wires are public";
      short kv = 55; GarbleEvalGateKnownValue(gv[0], gv[1], g.code, &kv);
      short want = dep ? SECRET : out;
      if (kv != want) why = "public-value pre-pass (GarbleEvalGateKnownValue) gives the wrong classification";
    } else if (mode == "c18") {
      bool need = sec[0] && sec[1] && !linear && !related;
      if (gi != 1 + (need ? 1 : 0)) why = need ? "non-linear gate did not produce exactly one table" : "a table was produced where none is needed";
      else if (ei != gi) why = "evaluator consumed a different number of tables";
      else if (emitted && gt[1].gid != (uint32_t)gid) why = "table is not tagged with its gate";
    } else if (mode == "c20" && emitted) {
      // same labels at another position must give an unrelated table
      for (int t = 0; t < 6; t++) {
        uint64_t c2 = cid, g2 = gid;
        if (t == 0) c2 = cid + 1; else if (t == 1) g2 = gid + 1; else if (t == 2) { c2 = gid; g2 = cid & 0xffffffff; } else if (t == 3) { c2 = cid ^ (1ull << (rnd() % 64)); } else if (t == 4) g2 = gid ^ (1ull << (rnd() % 32)); else { c2 = cid + 1; g2 = gid ? gid - 1 : 1; }
        g2 &= 0xffffffff;
        if (c2 == cid && g2 == gid) continue;
        GarbledTable t2[4]; uint64_t gi2 = 1; BlockPair go2; short gv2; memset(t2, 0, sizeof t2);
        GarbleGate(in[0], gv[0], in[1], gv[1], g.code, c2, g2, t2, &gi2, R, key, &go2, &gv2);
        if (eq(t2[1].row[0], gt[1].row[0]) || eq(t2[1].row[1], gt[1].row[1])) { char b[200]; snprintf(b, 200, "gate positions (cycle %lu, gate %lu) and (cycle %lu, gate %lu) hash with the same tweak", cid, gid, c2, g2); why = b; }
      }
      // the two halves of one gate must be hashed under different tweaks: garble with both inputs sharing labels up to R-free relation
      block k0 = X(in[0].label0, in[0].label1);
      (void)k0;
      GarbledTable t3[4]; uint64_t gi3 = 1; BlockPair o3; short v3; memset(t3, 0, sizeof t3);
      uint64_t tw = 2 * gid;
      block h0 = X(H(in[0].label0, cid, tw), H(in[0].label1, cid, tw));
      block want = h0;
      int vt = g.tt[0]*8 + g.tt[1]*4 + g.tt[2]*2 + g.tt[3]; (void)vt;
      block r0 = gt[1].row[0];
      if (!eq(r0, want) && !eq(r0, X(want, R))) why = "first half-gate row is not masked under the tweak (cycle, 2*gate)";
      block h1 = X(H(in[1].label0, cid, tw + 1), H(in[1].label1, cid, tw + 1));
      if (!eq(X(gt[1].row[1], h1), in[0].label0) && !eq(X(gt[1].row[1], h1), in[0].label1)) why = "second half-gate row is not masked under the tweak (cycle, 2*gate+1)";
    } else if (mode == "c25" && emitted) {
      uint64_t tw = 2 * gid;
      // f(a,b) = ((a^ia)&(b^ib))^io
      int ia = 0, ib = 0, io = 0; bool ok = false;
      for (int m = 0; m < 8 && !ok; m++) { ok = true; for (int q = 0; q < 4; q++) if (((((q >> 1) ^ (m & 1)) & ((q & 1) ^ (m >> 1 & 1))) ^ (m >> 2)) != g.tt[q]) ok = false; if (ok) { ia = m & 1; ib = m >> 1 & 1; io = m >> 2; } }
      block A0 = ia ? in[0].label1 : in[0].label0, A1 = ia ? in[0].label0 : in[0].label1, B0 = ib ? in[1].label1 : in[1].label0, B1 = ib ? in[1].label0 : in[1].label1;
      int pa = lo(A0) & 1, pb = lo(B0) & 1;
      block TG = X(H(A0, cid, tw), H(A1, cid, tw)); if (pb) TG = X(TG, R);
      block TE = X(X(H(B0, cid, tw + 1), H(B1, cid, tw + 1)), A0);
      block WG = H(A0, cid, tw); if (pa) WG = X(WG, TG);
      block WE = H(B0, cid, tw + 1); if (pb) WE = X(WE, X(TE, A0));
      block C0 = X(WG, WE); if (io) C0 = X(C0, R);
      if (!eq(gt[1].row[0], TG) || !eq(gt[1].row[1], TE)) why = "transmitted rows differ from the half-gates rows";
      else if (!eq(go.label0, C0)) why = "output label differs from the half-gates output label";
    }
    if (mode == "c01" || mode == "c18") for (int i = 0; i < 4; i++) if (!(i == 1 && emitted) && ((uint32_t)gt[i].gid != 0x5a5a5a00u + i || !eq(gt[i].row[0], mk(0,0)) || !eq(gt[i].row[1], mk(0,0)))) why = "a table slot other than the current one was written";
    if (!why.empty() && fails++ < 8) {
      printf("FAIL %s: gate %s in0=%s%d inv%d in1=%s%d inv%d cid=%lu gid=%lu", why.c_str(), g.n, sec[0] ? "secret " : "public ", v[0], inv[0], sec[1] ? "secret " : "public ", v[1], inv[1], cid, gid);
      hx("R", R); hx("in0.label0", in[0].label0); hx("in1.label0", in[1].label0); printf(" -> garbler value %d, evaluator value %d, tables %lu/%lu\n", gvo, evo, gi - 1, ei - 1);
    }
  }
  printf("%s: %d failing inputs\n", mode.c_str(), fails);
  return fails ? 1 : 0;
}
