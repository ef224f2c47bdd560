// bounded: block/BIGNUM codecs, bit operations and SendBN/RecvBN against independent bit-level references
// bn <seed> <cases>
#include "common.h"
#include "tcpip/tcpip.h"
#include <thread>
static BIGNUM* rbn(size_t bits) { BIGNUM* b = BN_new(); BN_zero(b); int z = rn(5); for (size_t i = 0; i < bits; i++) if (z == 0 ? rn(8) == 0 : z == 1 ? rn(8) != 0 : z == 2 ? true : rn(2)) BN_set_bit(b, i); return b; }
static size_t rsz() { int z = rn(6); return z == 0 ? 0 : z == 1 ? 1 + rn(9) : z == 2 ? 8 * (1 + rn(40)) : z == 3 ? 64 * (1 + rn(40)) + rn(3) - 1 : rn(3000); }
static string hx(const BIGNUM* b) { char* c = BN_bn2hex(b); string s = c; OPENSSL_free(c); return s; }
#define BAD(...) do { char _b[300]; snprintf(_b, sizeof _b, __VA_ARGS__); return string(_b); } while (0)
static string cse() {
  switch (rn(6)) {
  case 0: { block w = rblk(); if (rn(3) == 0) w = mk(rn(2) ? 0 : rnd(), rn(2) ? rn(300) : 0); BIGNUM* a = rbn(rsz()); BlockToBN(a, w);
    for (int j = 0; j < 128; j++) if (BN_is_bit_set(a, j) != (int)((j < 64 ? blo(w) >> j : bhi(w) >> (j - 64)) & 1)) BAD("BlockToBN(%016lx%016lx) = %s: bit %d differs", bhi(w), blo(w), hx(a).c_str(), j);
    if (BN_num_bits(a) > 128) BAD("BlockToBN: more than 128 bits"); block o = rblk(); BNToBlock(a, &o); if (!beq(o, w)) BAD("BNToBlock(BlockToBN(%016lx%016lx)) = %016lx%016lx", bhi(w), blo(w), bhi(o), blo(o)); BN_free(a); return ""; }
  case 1: { BIGNUM* a = rbn(rsz() % 300); block o = rblk(); BNToBlock(a, &o); for (int j = 0; j < 128; j++) if (BN_is_bit_set(a, j) != (int)((j < 64 ? blo(o) >> j : bhi(o) >> (j - 64)) & 1)) BAD("BNToBlock(%s) = %016lx%016lx: bit %d differs", hx(a).c_str(), bhi(o), blo(o), j); BN_free(a); return ""; }
  case 2: { BIGNUM* a = rbn(rsz()); size_t n = rsz(); BIGNUM* b = BN_dup(a); int r = BN_invert(a, n); if (!r) BAD("BN_invert reports failure"); for (size_t j = 0; j < 6600; j++) if (BN_is_bit_set(a, j) != (j < n ? !BN_is_bit_set(b, j) : BN_is_bit_set(b, j))) BAD("BN_invert(%.100s, %zu): bit %zu is %d", hx(b).c_str(), n, j, BN_is_bit_set(a, j)); BN_free(a); BN_free(b); return ""; }
  case 3: { BIGNUM* a = rbn(rsz()); size_t n = rsz(); int r = BN_full_one(a, n); if (!r) BAD("BN_full_one(%zu) reports failure", n); for (size_t j = 0; j < 6600; j++) if (BN_is_bit_set(a, j) != (int)(j < n)) BAD("BN_full_one(%zu): bit %zu is %d", n, j, BN_is_bit_set(a, j)); BN_free(a); return ""; }
  case 4: { BIGNUM *v = rbn(rsz()), *w = rbn(rsz()), *r0 = rbn(rsz()); size_t n = rsz(); BIGNUM *v0 = BN_dup(v), *w0 = BN_dup(w); int al = rn(4); BIGNUM* r = al == 0 ? v : al == 1 ? w : r0; BIGNUM* rr = BN_dup(r);
    if (!BN_xor(r, n, v, w)) BAD("BN_xor reports failure"); for (size_t j = 0; j < 6600; j++) if (BN_is_bit_set(r, j) != (j < n ? BN_is_bit_set(v0, j) ^ BN_is_bit_set(w0, j) : BN_is_bit_set(rr, j))) BAD("BN_xor(%zu bits, %.80s, %.80s): bit %zu is %d", n, hx(v0).c_str(), hx(w0).c_str(), j, BN_is_bit_set(r, j)); 
    BN_free(v); BN_free(w); BN_free(r0); BN_free(v0); BN_free(w0); BN_free(rr); return ""; }
  default: { int k = 1 + rn(4); vector<BIGNUM*> a, b; for (int i = 0; i < k; i++) { a.push_back(rbn(rsz())); b.push_back(rbn(rsz())); }
    int sv[2]; if (socketpair(AF_UNIX, SOCK_STREAM, 0, sv)) exit(3); vector<int> rs_(k), rr(k); string e;
    std::thread t([&] { for (int i = 0; i < k; i++) rs_[i] = SendBN(sv[0], a[i]); shutdown(sv[0], SHUT_WR); });
    for (int i = 0; i < k; i++) rr[i] = RecvBN(sv[1], b[i]); t.join(); char c; 
    for (int i = 0; i < k && e.empty(); i++) if (rs_[i] != SUCCESS || rr[i] != SUCCESS || BN_cmp(a[i], b[i])) e = "SendBN/RecvBN: sent " + hx(a[i]).substr(0, 80) + ", received " + hx(b[i]).substr(0, 80) + ", return codes " + std::to_string(rs_[i]) + ", " + std::to_string(rr[i]);
    if (e.empty() && read(sv[1], &c, 1) != 0) e = "RecvBN left bytes of the number on the stream";
    if (e.empty() && RecvBN(sv[1], b[0]) != FAILURE) e = "RecvBN reports success on a closed connection";
    close(sv[0]); close(sv[1]); for (auto x : a) BN_free(x); for (auto x : b) BN_free(x); return e; }
  }
}
int main(int, char** v) {
  signal(SIGPIPE, SIG_IGN); uint64_t seed = strtoull(v[1], 0, 10), n = strtoull(v[2], 0, 10); alarm(280);
  for (uint64_t i = 0; i < n; i++) { rs = 88172645463325252ULL ^ (seed * 1000003 + i) * 0x9E3779B97F4A7C15ULL; for (int k = 0; k < 5; k++) rnd(); string e = cse(); if (!e.empty()) { printf("FAIL case %lu: %s\n", (unsigned long)i, e.c_str()); return 1; } }
  printf("ok %lu cases\n", (unsigned long)n); return 0;
}
