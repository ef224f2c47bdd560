// Result formatting and parsing: OutputBN2StrHighMem/LowMem, ParseInitInputStr, EvalauatePlaintextStr-independent. args: seed cases
#include "common.h"
static string refhex(const vector<int>& b, size_t lo, size_t n) {   // numeral as BN_bn2hex writes it: even number of digits, no leading zero byte, "0" for zero
  vector<int> v; for (size_t i = 0; i < n; i++) v.push_back(lo + i < b.size() ? b[lo + i] : 0);
  while (!v.empty() && !v.back()) v.pop_back();
  if (v.empty()) return "0";
  while (v.size() % 8) v.push_back(0);
  string s; for (size_t i = v.size(); i; i -= 4) s += "0123456789ABCDEF"[v[i - 1] * 8 + v[i - 2] * 4 + v[i - 3] * 2 + v[i - 4]];
  return s;
}
int main(int argc, char** argv) {
  uint64_t seed = strtoull(argv[1], 0, 10); int cases = atoi(argv[2]); int fails = 0;
  rs = seed * 0x9E3779B97F4A7C15ULL + 1; for (int i = 0; i < 5; i++) rnd();
  for (int it = 0; it < cases && fails < 4; it++) {
    size_t os = rn(6) == 0 ? rn(3000) : rn(4) == 0 ? 8 * rn(20) : rn(70), cc = 1 + (rn(8) == 0 ? rn(300) : rn(12)); int mode = rn(3); bool low = rn(2);
    vector<int> b(os * cc); int z = rn(4); for (auto& x : b) x = z == 0 ? 0 : z == 1 ? rn(8) == 0 : rn(2);
    if (rn(3) == 0) for (size_t i = 0; i < b.size(); i++) if ((i / (os ? os : 1)) % 2) b[i] = 0;
    if (low && mode == 2) { b.resize(os); }
    BIGNUM* bn = bits2bn(b); GarbledCircuit gc; memset(&gc, 0, sizeof gc); gc.output_size = os;
    string want, got = rn(2) ? "leftover" : "";
    if (mode == 0) want = refhex(b, 0, b.size());
    else if (mode == 1) { for (size_t i = 0; i < cc; i++) want += (i ? "\n" : "") + refhex(b, i * os, os); }
    else want = low ? refhex(b, 0, os) : refhex(b, (cc - 1) * os, os);
    int r = (low ? OutputBN2StrLowMem : OutputBN2StrHighMem)(gc, bn, cc, (OutputMode)mode, &got);
    auto cut = [](const string& s) { return s.size() < 200 ? s : s.substr(0, 100) + "..." + s.substr(s.size() - 80); };
    if (r != SUCCESS || got != want) { fails++; printf("FAIL case %d: OutputBN2Str%sMem output_size=%zu cycles=%zu mode=%d: returned %d\n got [%s]\n expected [%s]\n", it, low ? "Low" : "High", os, cc, mode, r, cut(got).c_str(), cut(want).c_str()); }
    BN_free(bn);
    size_t n1 = rn(200), n2 = rn(3000); vector<int> x(n1), y(n2); for (auto& q : x) q = rn(2); for (auto& q : y) q = rn(2);
    string h1 = bits2hex(x), h2 = bits2hex(y); if (rn(2)) for (auto& ch : h2) ch = tolower(ch);
    BIGNUM *p = BN_new(), *q = BN_new(); if (rn(2)) BN_set_bit(p, 400);
    if (ParseInitInputStr(h1, h2, n1, n2, 1, &p, &q) != SUCCESS || bn2bits(p, 4000) != (x.resize(4000), x) || bn2bits(q, 4000) != (y.resize(4000), y)) { fails++; printf("FAIL case %d: ParseInitInputStr(%s, %s) gives %s, %s\n", it, cut(h1).c_str(), cut(h2).c_str(), BN_bn2hex(p), cut(BN_bn2hex(q)).c_str()); }
    BN_free(p); BN_free(q);
  }
  printf("fmt: %d failing cases of %d\n", fails, cases);
  return fails ? 1 : 0;
}
