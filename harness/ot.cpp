// bounded: real OT / OT-extension runs over a socketpair, both sides of /repo, and each side of the base OT against an independent peer
// ot base|ext|mask <seed> <cases>   (mask: only what concerns secrecy);   ot leak <seed> <messages>: demonstration of the known finding of C22
#include "common.h"
#include "crypto/OT.h"
#include "crypto/OT_extension.h"
#include "tcpip/tcpip.h"
#include <openssl/rsa.h>
#include <openssl/evp.h>
#include <thread>
#include <set>
#include <algorithm>
static string hx(const BIGNUM* b) { if (!b) return "null"; char* c = BN_bn2hex(b); string s = c; OPENSSL_free(c); return s.substr(0, 60); }
static BIGNUM* rbn(size_t bits) { BIGNUM* b = BN_new(); BN_zero(b); int z = rn(5); for (size_t i = 0; i < bits; i++) if (z == 0 ? rn(8) == 0 : z == 1 ? rn(8) != 0 : z == 2 ? true : rn(2)) BN_set_bit(b, i); return b; }
static int rwid() { return rn(2) ? 8 * (1 + rn(32)) : 1 + rn(256); }
static size_t rsz() { int z = rn(6); return z == 0 ? 0 : z == 1 ? 1 + rn(9) : z == 2 ? 8 * (1 + rn(20)) : z == 3 ? 64 * (1 + rn(20)) + rn(3) - 1 : rn(1500); }
static vector<int> rsel(int n) { int z = rn(5); vector<int> s(n); for (int i = 0; i < n; i++) s[i] = z == 0 ? 0 : z == 1 ? 1 : z == 2 ? i & 1 : rn(2); return s; }
struct Pair { int s[2]; Pair() { if (socketpair(AF_UNIX, SOCK_STREAM, 0, s)) exit(3); int b = 8 << 20; timeval tv = {20, 0}; for (int i : s) { setsockopt(i, SOL_SOCKET, SO_RCVTIMEO, &tv, sizeof tv); setsockopt(i, SOL_SOCKET, SO_SNDBUF, &b, 4); setsockopt(i, SOL_SOCKET, SO_RCVBUF, &b, 4); } } ~Pair() { close(s[0]); close(s[1]); }
  bool clean() { for (int i : s) { int n = 0; ioctl(i, FIONREAD, &n); if (n) return false; } return true; } };
struct Bias { const char* nm; int w, n; vector<int> ones; Bias(const char* m, int w) : nm(m), w(w), n(0), ones(w) {} void add(const BIGNUM* b) { n++; for (int i = 0; i < w; i++) ones[i] += BN_is_bit_set(b, i); }
  string bad() { for (int i = 0; i < w && n >= 60; i++) if (ones[i] == 0 || ones[i] == n) return string(nm) + ": bit " + std::to_string(i) + " is the same in all " + std::to_string(n) + " draws"; return ""; } };
static Bias bX("masks of OTSendBN", 1024), bK("blinding values of OTRecvBN", 1000), bT("rows of OTExtRecvBN", 128), bS("S of OTExtSendBN", 128), bM[2] = {Bias("top bit of the mask of a message, width a multiple of 8", 1), Bias("top bit of the mask of a message, width not a multiple of 8", 1)};
static bool SEC;   // only secrecy is judged
#define BAD(...) do { char _b[400]; snprintf(_b, sizeof _b, __VA_ARGS__); return string(_b); } while (0)
static string lens(int ext, int n) { return string(ext ? "OTExt" : "OT") + ", " + std::to_string(n) + " messages"; }
// both real sides, block wrappers
static string blocks(bool ext) {
  int n = ext ? (rn(4) ? rn(70) : 128 + rn(400)) : rn(8); vector<vector<block>> m(n); vector<block*> mp(n); vector<int> sel = rsel(n); bool* sb = new bool[n + 1]; vector<block> out(n + 2);
  for (int i = 0; i < n; i++) { for (int j = 0; j < 2; j++) m[i].push_back(rn(5) ? rblk() : mk(rn(3) ? 0 : rnd(), rn(2) ? 0 : rn(3))); mp[i] = m[i].data(); sb[i] = sel[i]; }
  block guard = rblk(); out[n] = guard; Pair p; int r0 = -9, r1 = -9;
  std::thread t([&] { r0 = ext ? OTExtSend(mp.data(), n, p.s[0]) : OTSend(mp.data(), n, p.s[0]); if (r0 != SUCCESS) shutdown(p.s[0], SHUT_RDWR); });
  r1 = ext ? OTExtRecv(sb, n, p.s[1], out.data()) : OTRecv(sb, n, p.s[1], out.data()); if (r1 != SUCCESS) shutdown(p.s[1], SHUT_RDWR); t.join(); delete[] sb;
  if (r0 != SUCCESS || r1 != SUCCESS) BAD("%s: return codes %d, %d", lens(ext, n).c_str(), r0, r1);
  for (int i = 0; i < n; i++) if (!beq(out[i], m[i][sel[i]])) BAD("%s: message %d, selection %d: sent %016lx%016lx / %016lx%016lx, received %016lx%016lx", lens(ext, n).c_str(), i, sel[i], bhi(m[i][0]), blo(m[i][0]), bhi(m[i][1]), blo(m[i][1]), bhi(out[i]), blo(out[i]));
  if (!beq(out[n], guard)) BAD("%s: wrote past the last block", lens(ext, n).c_str());
  if (!p.clean()) BAD("%s: bytes left on the stream", lens(ext, n).c_str());
  return "";
}
static string numbers(bool ext) {
  int n = ext ? rn(40) : rn(6); int bits = ext ? rwid() : 0; vector<vector<BIGNUM*>> m(n); vector<BIGNUM**> mp(n); vector<int> sel = rsel(n); vector<BIGNUM*> out(n); BIGNUM* s = bits2bn(sel);
  for (int i = 0; i < n; i++) { for (int j = 0; j < 2; j++) m[i].push_back(rbn(ext ? rn(bits + 1) : rsz())); mp[i] = m[i].data(); out[i] = ext ? nullptr : BN_new(); }
  Pair p; int r0 = -9, r1 = -9;
  std::thread t([&] { r0 = ext ? OTExtSendBN((const BIGNUM* const* const*)mp.data(), bits, n, p.s[0]) : OTSendBN((const BIGNUM* const* const*)mp.data(), n, p.s[0]); if (r0 != SUCCESS) shutdown(p.s[0], SHUT_RDWR); });
  r1 = ext ? OTExtRecvBN(s, bits, n, p.s[1], out.data()) : OTRecvBN(s, n, p.s[1], out.data()); if (r1 != SUCCESS) shutdown(p.s[1], SHUT_RDWR); t.join();
  if (r0 != SUCCESS || r1 != SUCCESS) BAD("%sBN, width %d: return codes %d, %d", lens(ext, n).c_str(), bits, r0, r1);
  for (int i = 0; i < n; i++) if (BN_cmp(out[i], m[i][sel[i]])) BAD("%sBN, width %d: message %d, selection %d: sent %s / %s, received %s", lens(ext, n).c_str(), bits, i, sel[i], hx(m[i][0]).c_str(), hx(m[i][1]).c_str(), hx(out[i]).c_str());
  return "";
}
static string mismatch() {
  int n = rn(5), d = rn(2) && n ? -1 - (int)rn(n) : 1 + rn(3); Pair p; timeval tv = {4, 0}; setsockopt(p.s[1], SOL_SOCKET, SO_RCVTIMEO, &tv, sizeof tv); vector<BIGNUM*> m[2]; vector<vector<BIGNUM*>> mm(n); vector<BIGNUM**> mp(n); for (int i = 0; i < n; i++) { mm[i] = {rbn(9), rbn(9)}; mp[i] = mm[i].data(); }
  vector<BIGNUM*> out(n + d); for (auto& o : out) o = BN_new(); BIGNUM* s = BN_new(); int r1;
  std::thread t([&] { OTSendBN((const BIGNUM* const* const*)mp.data(), n, p.s[0]); });
  time_t t0 = time(0); r1 = OTRecvBN(s, n + d, p.s[1], out.data()); time_t t1 = time(0); shutdown(p.s[1], SHUT_RDWR); t.join();
  if (r1 != FAILURE || t1 - t0 > 3) BAD("OTRecvBN expects %d messages, the sender announces %d: returned %d after %d s", n + d, n, r1, (int)(t1 - t0)); return "";
}
// the real sender against an independent receiver: both replies checked, masks fresh and full size
static string sender() {
  int n = 1 + rn(rn(3) ? 40 : 140); vector<vector<BIGNUM*>> m(n); vector<BIGNUM**> mp(n); for (int i = 0; i < n; i++) { m[i] = {rbn(rsz()), rbn(rsz())}; mp[i] = m[i].data(); }
  Pair p; int fd = p.s[1], r0 = -9; std::thread t([&] { r0 = OTSendBN((const BIGNUM* const* const*)mp.data(), n, p.s[0]); shutdown(p.s[0], SHUT_WR); });
  auto body = [&]() -> string {
    BN_CTX* c = BN_CTX_new(); uint32_t l = 0; BIGNUM *N = BN_new(), *e = BN_new(), *v = BN_new(), *a = BN_new(), *b = BN_new(), *w = BN_new();
    if (RecvData(fd, &l, 4) != SUCCESS || l != (uint32_t)n) BAD("OTSendBN announces %u messages instead of %d", l, n);
    RecvBN(fd, N); RecvBN(fd, e); if (BN_num_bits(N) < 1024 || !BN_is_odd(N)) BAD("OTSendBN sends a %d-bit modulus", BN_num_bits(N));
    vector<BIGNUM*> x; std::set<string> seen; int big = 0; for (int i = 0; i < 2 * n; i++) { BIGNUM* y = BN_new(); if (RecvBN(fd, y) != SUCCESS) BAD("OTSendBN sends too few masks"); x.push_back(y); bX.add(y); if (BN_num_bits(y) < 900 || !seen.insert(hx(y)).second) BAD("OTSendBN: mask %d is short or repeated: %s", i, hx(y).c_str()); big += BN_num_bits(y) > 1000; }
    for (int i = 0; i < n; i++) { int s = rn(2); BIGNUM* k = BN_new(); BN_rand_range(k, N); BN_mod_exp(v, k, e, N, c); BN_mod_add(v, v, x[2 * i + s], N, c); SendBN(fd, v); BIGNUM* r[2] = {BN_new(), BN_new()};
      for (int j = 0; j < 2; j++) { if (RecvBN(fd, r[j]) != SUCCESS) BAD("OTSendBN sends no reply"); BN_sub(a, r[j], m[i][j]); if (BN_is_negative(a) || BN_cmp(a, N) >= 0) BAD("OTSendBN: reply %d of message %d is not mask + message", j, i);
        BN_mod_exp(b, a, e, N, c); BN_sub(w, v, x[2 * i + j]); BN_nnmod(w, w, N, c); if (BN_cmp(b, w)) BAD("OTSendBN: reply %d of message %d is not masked by (v - x%d)^d", j, i, j); }
      BN_sub(a, r[s], k); if (!SEC && BN_cmp(a, m[i][s])) BAD("OTSendBN: message %d cannot be recovered", i); }
    return ""; };
  string e = body(); shutdown(fd, SHUT_RDWR); t.join(); if (e.empty() && !SEC && r0 != SUCCESS) e = "OTSendBN reports failure"; return e;
}
// the real receiver against an independent sender: v = x_sel + k^e with fresh full-size k; both replies read, the right one used
static RSA* KEY; 
static string receiver() {
  int n = 1 + rn(rn(3) ? 40 : 140); vector<int> sel = rsel(n); BIGNUM* s = bits2bn(sel); vector<BIGNUM*> out(n); for (auto& o : out) o = rbn(rn(40)); Pair p; int fd = p.s[0], r1 = -9; BN_CTX* c = BN_CTX_new();
  if (!KEY) { KEY = RSA_new(); BIGNUM* f = BN_new(); BN_set_word(f, RSA_F4); RSA_generate_key_ex(KEY, 1024, f, 0); } const BIGNUM *N, *e, *d; RSA_get0_key(KEY, &N, &e, &d);
  std::thread t([&] { r1 = OTRecvBN(s, n, p.s[1], out.data()); if (r1 != SUCCESS) shutdown(p.s[1], SHUT_RDWR); });
  vector<vector<BIGNUM*>> m(n);
  auto body = [&]() -> string {
    uint32_t l = n; SendData(fd, &l, 4); SendBN(fd, N); SendBN(fd, e); vector<BIGNUM*> x; for (int i = 0; i < 2 * n; i++) { BIGNUM* y = BN_new(); BN_rand(y, rn(6) ? 1024 : rn(1024), -1, 0); x.push_back(y); SendBN(fd, y); }
    std::set<string> seen; BIGNUM *v = BN_new(), *k = BN_new(), *a = BN_new(); vector<BIGNUM*> ks;
    for (int i = 0; i < n; i++) { if (RecvBN(fd, v) != SUCCESS) BAD("OTRecvBN sends no value for message %d", i); if (BN_cmp(v, N) >= 0) BAD("OTRecvBN: value %d is not reduced modulo n", i); k = BN_new(); BN_sub(a, v, x[2 * i + sel[i]]); BN_nnmod(a, a, N, c); BN_mod_exp(k, a, d, N, c); ks.push_back(k); bK.add(k);
      if (BN_num_bits(k) < 900 || !seen.insert(hx(k)).second) BAD("OTRecvBN: value %d (selection %d) is not x_sel + k^e for a fresh k", i, sel[i]); }
    for (int i = 0; i < n; i++) { m[i] = {rbn(rsz()), rbn(rsz())}; for (int j = 0; j < 2; j++) { if (j == sel[i]) BN_add(a, ks[i], m[i][j]); else { BN_rand(a, 1000, -1, 0); BN_add(a, a, m[i][j]); } SendBN(fd, a); } }
    return ""; };
  string er = body(); if (!er.empty()) { shutdown(fd, SHUT_RDWR); t.join(); return er; } t.join();
  if (SEC) return ""; if (r1 != SUCCESS) BAD("OTRecvBN reports %d", r1);
  for (int i = 0; i < n; i++) if (BN_cmp(out[i], m[i][sel[i]])) BAD("OTRecvBN: message %d, selection %d: expected %s, got %s", i, sel[i], hx(m[i][sel[i]]).c_str(), hx(out[i]).c_str());
  return "";
}
// closed peer: failure is reported
static string dead(bool ext) {
  Pair p; shutdown(p.s[1], SHUT_RDWR); int n = 1 + rn(4); vector<block> out(n); bool sb[8] = {0, 1, 1}; if (rn(2)) { int r = ext ? OTExtRecv(sb, n, p.s[0], out.data()) : OTRecv(sb, n, p.s[0], out.data()); if (r != FAILURE) BAD("%s receiver reports success on a closed connection", ext ? "OTExt" : "OT"); }
  else { vector<vector<block>> m(n, vector<block>(2, rblk())); vector<block*> mp; for (auto& q : m) mp.push_back(q.data()); int r = ext ? OTExtSend(mp.data(), n, p.s[0]) : OTSend(mp.data(), n, p.s[0]); if (r != FAILURE) BAD("%s sender reports success on a closed connection", ext ? "OTExt" : "OT"); }
  return "";
}
__attribute__((weak)) int HashBN(BIGNUM* r, uint32_t bits, uint32_t tweak, const BIGNUM* v);
static void H(BIGNUM* r, int bits, uint32_t tw, const BIGNUM* v) { unsigned char in[20], o[64]; memcpy(in, &tw, 4); memset(in + 4, 0, 16); int n = BN_num_bytes(v); BN_bn2bin(v, in + 4 + 16 - n); unsigned l; EVP_Digest(in, 20, o, &l, EVP_sha256(), 0); BN_bin2bn(o, (bits + 7) / 8, r); }
static string hash() { if (!HashBN) return "";   // SHA-256 of (tweak, 16-byte big-endian row), first (bits+7)/8 bytes; bits above the width do not matter
  BIGNUM* v = rbn(rn(3) ? rn(129) : 8 * rn(17)); uint32_t tw = rn(3) ? rn(300) : rnd(); int bits = rwid(); BIGNUM* r = BN_new(); if (HashBN(r, bits, tw, v) != SUCCESS) BAD("HashBN reports failure");
  BIGNUM* w = BN_new(); H(w, bits, tw, v); if (BN_num_bits(w) > bits) BN_mask_bits(w, bits); if (BN_num_bits(r) > bits) BN_mask_bits(r, bits);
  if (BN_cmp(r, w)) BAD("HashBN(%d bits, tweak %u, row %s) = %s, SHA-256 of tweak and 16-byte row is %s", bits, tw, hx(v).c_str(), hx(r).c_str(), hx(w).c_str()); BN_free(v); BN_free(r); BN_free(w); return "";
}
__attribute__((weak)) int SwitchRowColumnBN(const BIGNUM* const * v, uint32_t v_len, uint32_t v_bit_len, BIGNUM*** w);
__attribute__((weak)) int SwitchRowColumnBNPair(const BIGNUM* const * const * v, uint32_t v_len, uint32_t v_bit_len, BIGNUM**** w);
static string transpose() { if (!SwitchRowColumnBN || !SwitchRowColumnBNPair) return "";
  int n = rn(150), b = rn(150); vector<BIGNUM*> v(n); vector<vector<BIGNUM*>> vp(n); vector<BIGNUM**> vq(n); for (int i = 0; i < n; i++) { v[i] = rbn(b); vp[i] = {rbn(b), rbn(b)}; vq[i] = vp[i].data(); } BIGNUM **w; BIGNUM*** u;
  if (SwitchRowColumnBN(v.data(), n, b, &w) != SUCCESS || SwitchRowColumnBNPair((const BIGNUM* const* const*)vq.data(), n, b, &u) != SUCCESS) BAD("SwitchRowColumn reports failure");
  for (int i = 0; i < b; i++) for (int k = 0; k < n + 9; k++) { if (BN_is_bit_set(w[i], k) != (k < n && BN_is_bit_set(v[k], i))) BAD("SwitchRowColumnBN(%d x %d): bit %d of row %d", n, b, k, i); for (int j = 0; j < 2; j++) if (BN_is_bit_set(u[i][j], k) != (k < n && BN_is_bit_set(vp[k][j], i))) BAD("SwitchRowColumnBNPair(%d x %d): bit %d of row %d of %d", n, b, k, i, j); }
  return "";
}
// the real extension receiver against an independent sender: T rows fresh, T^r complement exactly where selected; sender side replays IKNP
static string extrecv() {
  int n = 1 + rn(rn(3) ? 30 : 200), bits = rwid(); vector<int> sel = rsel(n), S = rbits(128); BIGNUM *sb = bits2bn(sel), *Sb = bits2bn(S); vector<BIGNUM*> out(n, (BIGNUM*)0), Q(128); for (auto& q : Q) q = BN_new(); Pair p; int r1 = -9;
  std::thread t([&] { r1 = OTExtRecvBN(sb, bits, n, p.s[1], out.data()); if (r1 != SUCCESS) shutdown(p.s[1], SHUT_RDWR); });
  vector<vector<BIGNUM*>> m(n); string er; std::set<string> seen;
  if (OTRecvBN(Sb, 128, p.s[0], Q.data()) != SUCCESS) er = "OTExtRecvBN: the inner base OT fails";
  for (int i = 0; i < n && er.empty(); i++) { BIGNUM *q = BN_new(), *qs = BN_new(); BN_zero(q); BN_zero(qs); for (int k = 0; k < 128; k++) { int b = BN_is_bit_set(Q[k], i); if (b) BN_set_bit(q, k); if (b ^ S[k]) BN_set_bit(qs, k); }
    BIGNUM* tr = sel[i] ? qs : q; bT.add(tr); if (!seen.insert(hx(tr)).second || BN_num_bits(tr) < 90) er = "OTExtRecvBN: row " + std::to_string(i) + " is short or repeated: " + hx(tr);
    m[i] = {rbn(rn(bits + 1)), rbn(rn(bits + 1))}; BIGNUM *h = BN_new(), *y = BN_new(); for (int j = 0; j < 2; j++) { H(h, bits, i, j ? qs : q); BN_zero(y); for (int k = 0; k < bits; k++) if (BN_is_bit_set(h, k) ^ BN_is_bit_set(m[i][j], k)) BN_set_bit(y, k); SendBN(p.s[0], y); } }
  if (!er.empty()) { shutdown(p.s[0], SHUT_RDWR); t.join(); return er; } t.join();
  if (SEC) return ""; if (r1 != SUCCESS) BAD("OTExtRecvBN reports %d", r1); for (int i = 0; i < n; i++) if (!out[i] || BN_cmp(out[i], m[i][sel[i]])) BAD("OTExtRecvBN, %d messages of %d bits: message %d, selection %d: expected %s, got %s", n, bits, i, sel[i], hx(m[i][sel[i]]).c_str(), hx(out[i]).c_str());
  return "";
}
// the real extension sender against an independent receiver which also unmasks the other message with q ^ S (recovered from the base OT): S fresh and full size
static string extsend() {
  int n = 1 + rn(30), bits = rwid(); vector<vector<BIGNUM*>> m(n); vector<BIGNUM**> mp(n); for (int i = 0; i < n; i++) { m[i] = {rbn(rn(bits + 1)), rbn(rn(bits + 1))}; mp[i] = m[i].data(); } static std::set<string> Ss; Pair p; int r0 = -9;
  std::thread t([&] { r0 = OTExtSendBN((const BIGNUM* const* const*)mp.data(), bits, n, p.s[0]); if (r0 != SUCCESS) shutdown(p.s[0], SHUT_RDWR); });
  // columns: pair (t_k, t_k ^ r); the reply decides which column the sender holds; S is read off y via brute force over one bit at a time is impossible, so offer columns that differ and check both halves
  vector<int> r = rsel(n); vector<vector<int>> T(n); for (auto& x : T) x = rbits(128); vector<vector<BIGNUM*>> col(128); vector<BIGNUM**> cp(128); for (int k = 0; k < 128; k++) { vector<int> a(n), b(n); for (int i = 0; i < n; i++) { a[i] = T[i][k]; b[i] = T[i][k] ^ r[i]; } col[k] = {bits2bn(a), bits2bn(b)}; cp[k] = col[k].data(); }
  string er; if (OTSendBN((const BIGNUM* const* const*)cp.data(), 128, p.s[1]) != SUCCESS) er = "OTExtSendBN: the inner base OT fails"; BIGNUM *y = BN_new(), *h = BN_new(); string first, second;
  for (int i = 0; i < n && er.empty(); i++) { BIGNUM* tb = bits2bn(T[i]); H(h, bits, i, tb); for (int j = 0; j < 2; j++) { if (RecvBN(p.s[1], y) != SUCCESS) { er = "OTExtSendBN sends too few messages"; break; } BN_free(BN_new()); BIGNUM* d = BN_new(); BN_zero(d); for (int k = 0; k < bits; k++) if (BN_is_bit_set(h, k) ^ BN_is_bit_set(y, k)) BN_set_bit(d, k);
      { BIGNUM* t = BN_new(); BN_zero(t); if (BN_is_bit_set(y, bits - 1) ^ BN_is_bit_set(m[i][j], bits - 1)) BN_set_bit(t, 0); bM[bits % 8 != 0].add(t); BN_free(t); }
      if (!SEC && j == r[i] && BN_cmp(d, m[i][j])) er = "OTExtSendBN, " + std::to_string(bits) + " bits: message " + std::to_string(i) + ", selection " + std::to_string(j) + ": expected " + hx(m[i][j]) + ", got " + hx(d);
      if (j != r[i] && bits >= 64 && !BN_cmp(d, m[i][j])) er = "OTExtSendBN: the message that was not selected (" + std::to_string(i) + ") is sent under the same mask"; } BN_free(tb); }
  if (!er.empty()) { shutdown(p.s[1], SHUT_RDWR); t.join(); return er; } t.join(); if (!SEC && r0 != SUCCESS) BAD("OTExtSendBN reports %d", r0); return "";
}
// a peer that announces e = 0 sees the blinded values as x_sel + 1: S of the extension sender is read off; it has to be fresh and full size
static string extS() {
  static std::set<string> seen; Pair p; int n = 1 + rn(20); vector<vector<block>> m(n, vector<block>(2, rblk())); vector<block*> mp; for (auto& q : m) mp.push_back(q.data());
  std::thread t([&] { OTExtSend(mp.data(), n, p.s[0]); shutdown(p.s[0], SHUT_RDWR); });
  string s, er; BIGNUM *N = BN_new(), *e = BN_new(), *v = BN_new(); BN_rand(N, 1024, 1, 1); BN_zero(e); uint32_t l = 128; SendData(p.s[1], &l, 4); SendBN(p.s[1], N); SendBN(p.s[1], e); vector<BIGNUM*> x;
  for (int i = 0; i < 256; i++) { BIGNUM* y = BN_new(); BN_rand(y, 1000, -1, 0); x.push_back(y); if (SendBN(p.s[1], y) != SUCCESS) break; }
  for (int i = 0; i < 128; i++) { if (RecvBN(p.s[1], v) != SUCCESS) break; BN_sub_word(v, 1); if (!BN_cmp(v, x[2 * i])) s += '0'; else if (!BN_cmp(v, x[2 * i + 1])) s += '1'; else break; }
  shutdown(p.s[1], SHUT_RDWR); t.join(); for (auto y : x) BN_free(y);
  if (s.size() != 128) return "";   // the sender did not answer such a key
  BIGNUM* sv = BN_new(); BN_zero(sv); for (int i = 0; i < 128; i++) if (s[i] == '1') BN_set_bit(sv, i); bS.add(sv); BN_free(sv); int w = std::count(s.begin(), s.end(), '1'); string tail = s.substr(96);
  if (!seen.insert(s).second || w < 24 || w > 104) er = "OTExtSendBN: S is not a fresh 128-bit draw: " + s;
  for (int a = 0; a < 128 && er.empty(); a += 32) { string part = s.substr(a, 32); if (std::count(part.begin(), part.end(), '1') == 0 || std::count(part.begin(), part.end(), '0') == 0) er = "OTExtSendBN: S is not a fresh 128-bit draw: " + s; }
  return er;
}
// known finding: columns wider than the 1024-bit masks of the base OT show the receiver's selections (bits 1025.. of the two replies) to the extension sender
static int leak(int n) {
  vector<int> sel = rbits(n); BIGNUM* sb = bits2bn(sel); vector<BIGNUM*> out(n, (BIGNUM*)0); Pair p; int fd = p.s[0]; std::thread t([&] { if (OTExtRecvBN(sb, 128, n, p.s[1], out.data()) != SUCCESS) shutdown(p.s[1], SHUT_RDWR); });
  uint32_t l; BIGNUM *N = BN_new(), *e = BN_new(), *v = BN_new(), *k = BN_new(), *r[2] = {BN_new(), BN_new()}; BN_CTX* c = BN_CTX_new(); RecvData(fd, &l, 4); RecvBN(fd, N); RecvBN(fd, e); vector<BIGNUM*> x; for (unsigned i = 0; i < 2 * l; i++) { BIGNUM* y = BN_new(); RecvBN(fd, y); x.push_back(y); }
  vector<int> hit(n);
  for (unsigned i = 0; i < l; i++) { BN_rand_range(k, N); BN_mod_exp(v, k, e, N, c); BN_mod_add(v, v, x[2 * i], N, c); SendBN(fd, v); for (int j = 0; j < 2; j++) RecvBN(fd, r[j]); for (int q = 1024; q < n; q++) hit[q] += (BN_is_bit_set(r[0], q) ^ BN_is_bit_set(r[1], q)) == sel[q]; }
  shutdown(fd, SHUT_RDWR); t.join(); int known = 0; for (int q = 1024; q < n; q++) known += hit[q] > 64;
  printf("%d of the %d selections above bit 1023 are read off the replies\n", known, n > 1024 ? n - 1024 : 0); return 0;
}
int main(int, char** v) {
  signal(SIGPIPE, SIG_IGN); bool ext = string(v[1]) == "ext"; uint64_t seed = strtoull(v[2], 0, 10), n = strtoull(v[3], 0, 10); alarm(280); HashInit();
  SEC = string(v[1]) == "mask"; if (string(v[1]) == "leak") { rs = 88172645463325252ULL ^ seed * 0x9E3779B97F4A7C15ULL; return leak(n); }
  for (uint64_t i = 0; i < n; i++) { rs = 88172645463325252ULL ^ (seed * 1000003 + i) * 0x9E3779B97F4A7C15ULL; for (int k = 0; k < 5; k++) rnd(); string e;
    if (SEC) { int z = i % 5; e = z == 0 ? sender() : z == 1 ? receiver() : z == 2 ? extrecv() : z == 3 ? extsend() : extS(); }
    else if (ext) { int z = i % 6; e = z == 0 ? blocks(true) : z == 1 ? numbers(true) : z == 2 ? extrecv() : z == 3 ? extsend() : z == 4 ? dead(true) : transpose(); for (int k = 0; k < 200 && e.empty(); k++) e = hash(); }
    else { int z = i % 6; e = z == 0 ? blocks(false) : z == 1 ? numbers(false) : z == 2 ? sender() : z == 3 ? receiver() : z == 4 ? mismatch() : dead(false); }
    if (!e.empty()) { printf("FAIL case %lu: %s\n", (unsigned long)i, e.c_str()); return 1; } }
  for (Bias* b : {&bX, &bK, &bT, &bS, &bM[0], &bM[1]}) { string e = b->bad(); if (!e.empty()) { printf("FAIL %s\n", e.c_str()); return 1; } }
  printf("ok %lu cases\n", (unsigned long)n); return 0;
}
