// Conversions of util.cpp against independent references. args: seed cases
#include "common.h"
static string rbin(size_t n) { string s; int z = rn(4); for (size_t i = 0; i < n; i++) s += char('0' + (z == 0 ? 0 : z == 1 ? rn(9) == 0 : rn(2))); return s; }
static int hv(char c) { return c >= '0' && c <= '9' ? c - '0' : c >= 'a' && c <= 'f' ? c - 'a' + 10 : c >= 'A' && c <= 'F' ? c - 'A' + 10 : -1; }
static int hbit(const string& h, size_t q) { return q / 4 < h.size() ? hv(h[h.size() - 1 - q / 4]) >> (q % 4) & 1 : 0; }
static bool hexok(const string& h) { for (char c : h) if (hv(c) < 0) return false; return true; }
// the number written in h has exactly the bits of b (most significant first)
static bool same(const string& h, const string& b) {
  if (!hexok(h) || 4 * h.size() < b.size()) return false;
  for (size_t q = 0; q < 4 * h.size(); q++) if (hbit(h, q) != (q < b.size() ? b[b.size() - 1 - q] == '1' : 0)) return false;
  return true;
}
static string cut(const string& s) { return s.size() < 200 ? s : s.substr(0, 90) + "...(" + std::to_string(s.size()) + " characters)..." + s.substr(s.size() - 60); }
static uint64_t rv() { int z = rn(6); return z == 0 ? rn(4) : z == 1 ? ~rn(4) : z == 2 ? 1ULL << rn(64) : z == 3 ? (1ULL << rn(64)) - 1 : rnd(); }
int main(int argc, char** argv) {
  uint64_t seed = strtoull(argv[1], 0, 10); int cases = atoi(argv[2]); int fails = 0;
  rs = seed * 0x9E3779B97F4A7C15ULL + 1; for (int i = 0; i < 5; i++) rnd();
#define BAD(...) do { fails++; printf("FAIL case %d: ", it); printf(__VA_ARGS__); printf("\n"); } while (0)
  for (int it = 0; it < cases && fails < 4; it++) {
    bool big = it % 400 == 7;
    { string b = rbin(big ? 65530 + rn(300) : rn(80)); string h = bin2hex(b); if (!same(h, b)) BAD("bin2hex(%s) = %s", cut(b).c_str(), cut(h).c_str()); }
    { string h; size_t n = big ? 16380 + rn(60000) : rn(40); for (size_t i = 0; i < n; i++) h += "0123456789abcdefABCDEF"[rn(22)];
      string b = hex2bin(h); bool ok = b.size() == 4 * h.size(); for (size_t q = 0; ok && q < b.size(); q++) ok = b[b.size() - 1 - q] == '0' + hbit(h, q);
      if (!ok) BAD("hex2bin(%s) = %s", cut(h).c_str(), cut(b).c_str()); }
    { size_t L = rn(65); uint64_t v = rv(); string b = dec2bin(v, L); bool ok = b.size() == L; for (size_t q = 0; ok && q < L; q++) ok = b[L - 1 - q] == '0' + int(v >> q & 1); if (!ok) BAD("dec2bin(%lld, %zu) = %s", (long long)v, L, b.c_str()); }
    { size_t L = 1 + rn(64); string b = rbin(L); bool sg = rn(2); if (L == 64 && sg && b.substr(1).find('1') == string::npos) b[63] = '1';
      int64_t v = bin2dec(b, sg); uint64_t w = sg && b[0] == '1' ? ~0ULL : 0; for (char c : b) w = w << 1 | (c == '1'); if (uint64_t(v) != w) BAD("bin2dec(%s, %d) = %lld, expected %lld", b.c_str(), sg, (long long)v, (long long)w); }
    { size_t L = rn(big ? 5000 : 90); string b = rbin(L), r = towsComplement(b), w = b; bool seen = false; for (size_t j = L; j-- > 0;) { if (seen) w[j] = b[j] == '1' ? '0' : '1'; if (b[j] == '1') seen = true; } if (r != w) BAD("towsComplement(%s) = %s", cut(b).c_str(), cut(r).c_str()); }
    { size_t n = big ? 200 + rn(1000) : rn(12); vector<uint64_t> v; vector<uint16_t> l; string b; for (size_t i = 0; i < n; i++) { v.push_back(rv()); l.push_back(rn(3) == 0 ? 64 : rn(65)); for (int q = l[i] - 1; q >= 0; q--) b += '0' + int(v[i] >> q & 1); }
      string h = formatGCInputString(v, l); if (!same(h, b)) BAD("formatGCInputString of %zu numbers = %s, expected the bits %s", n, cut(h).c_str(), cut(b).c_str()); }
    { size_t n = big ? 200 + rn(1000) : rn(12), T = 0; vector<int64_t> o(n, 77), w; vector<uint16_t> l; uint16_t off = rn(3) == 0 ? rn(big ? 60000 : 300) : 0; for (size_t i = 0; i < n; i++) { l.push_back(rn(3) == 0 ? 64 : 1 + rn(64)); T += l[i]; }
      T += off; size_t hl = (T + 3) / 4; int z = rn(3); if (z == 0) hl = rn(hl + 1); else if (z == 1) hl += rn(5); string h; for (size_t i = 0; i < hl; i++) h += "0123456789abcdefABCDEF"[rn(22)];
      if (hl == 0) h = "0";
      size_t hi = T; bool edge = false; for (size_t i = 0; i < n; i++) { uint64_t x = hbit(h, hi - 1) ? ~0ULL : 0; for (int q = 0; q < l[i]; q++) x = x << 1 | hbit(h, --hi); w.push_back(x); if (l[i] == 64 && x == 1ULL << 63) edge = true; }
      if (!edge) { parseGCOutputString(o, h, l, off); if (o != w) { size_t i = 0; while (i < n && o.size() > i && o[i] == w[i]) i++; BAD("parseGCOutputString(%s) with %zu outputs, offset %u: output %zu = %lld, expected %lld", cut(h).c_str(), n, off, i, i < n ? (long long)o[i] : 0, i < n ? (long long)w[i] : 0); } } }
    { unsigned g = rn(big ? 40000 : 70), e = rn(big ? 25000 : 70); bool left = rn(2); string b = left ? string(g, '1') + string(e, '0') : string(e, '0') + string(g, '1'); string h = formatGCOutputMask(g, e, left); if (!same(h, b)) BAD("formatGCOutputMask(%u, %u, %d) = %s", g, e, left, cut(h).c_str()); }
    { string d, s; size_t n = rn(33); for (size_t i = 0; i < n; i++) { while (rn(4) == 0) s += " \t_"[rn(3)]; char c = "0123456789abcdefABCDEF"[rn(22)]; s += c; d += c; } while (rn(4) == 0) s += ' ';
      block v = rblk(); int r = Str2Block(s, &v); uint64_t hi = 0, lo = 0; for (int q = 0; q < 64; q++) { lo |= uint64_t(hbit(d, q)) << q; hi |= uint64_t(hbit(d, 64 + q)) << q; }
      if (r != SUCCESS || !beq(v, mk(hi, lo))) BAD("Str2Block(\"%s\") returned %d, block %016llx %016llx", s.c_str(), r, (unsigned long long)bhi(v), (unsigned long long)blo(v));
      string tl; for (size_t i = 0; i < 33 + rn(4); i++) tl += "0123456789abcdef"[rn(16)]; if (Str2Block(tl, &v) != FAILURE) BAD("Str2Block accepts %s", tl.c_str()); }
  }
  printf("conv: %d failing cases of %d\n", fails, cases);
  return fails ? 1 : 0;
}
