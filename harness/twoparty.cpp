// Random sequential circuits: the real two parties against an independent simulator. args: mode seed cases ot(0/1)
// modes: hm (high-memory), lm (low-memory), str (through SCD files and strings), mask-hm, mask-lm, term-hm, term-lm
#include "common.h"
#include "crypto/OT.h"
#include "crypto/OT_extension.h"
static string runparty(bool alice, const string& mode, Circ c, const In& x, int cc, const string& mask, int period, bool noot, int fd, int perturb, uint64_t seed, const string& scd) {
  mallopt(M_PERTURB, perturb); SrandSSE(seed + alice); srand(seed + alice);
  std::ostringstream s;
  if (mode == "str") {
    string out; int r = alice ? GarbleStr(scd, bits2hex(x.pi), bits2hex(x.pin), bits2hex(x.gi), bits2hex(x.gin), cc, mask, period, OutputMode::consecutive, noot, rs & 1, &out, fd)
      : EvaluateStr(scd, bits2hex(x.pi), bits2hex(x.pin), bits2hex(x.ei), bits2hex(x.ein), cc, mask, period, OutputMode::consecutive, noot, rs & 1, &out, fd);
    s << r << " " << cc << " " << out; return s.str();
  }
  GarbledCircuit gc; c.fill(&gc); if (FillFanout(&gc) != SUCCESS) return "fanout";
  block R = RandomBlock(); *((short*)&R) |= 1;
  BIGNUM *pi = bits2bn(x.pi), *pin = bits2bn(x.pin), *a = bits2bn(alice ? x.gi : x.ei), *b = bits2bn(alice ? x.gin : x.ein), *o = BN_new(); BN_zero(o);
  uint64_t n = cc; block key = mk(seed, ~seed);
  bool lm = mode == "lm" || mode == "mask-lm" || mode == "term-lm";
  int r;
  if (lm) r = alice ? GarbleBNLowMem(gc, pi, pin, a, b, &n, mask, period, OutputMode::consecutive, o, R, key, noot, fd) : EvaluateBNLowMem(gc, pi, pin, a, b, &n, mask, period, OutputMode::consecutive, o, key, noot, fd);
  else r = alice ? GarbleBNHighMem(gc, pi, pin, a, b, &n, mask, period, OutputMode::consecutive, o, R, key, noot, fd) : EvaluateBNHighMem(gc, pi, pin, a, b, &n, mask, period, OutputMode::consecutive, o, key, noot, fd);
  int left = 0; 
  s << r << " " << n << " " << bs(bn2bits(o, cc * c.out.size()));
  usleep(200); ioctl(fd, FIONREAD, &left); if (left && !alice) s << " LEFT" << left;
  return s.str();
}
int main(int argc, char** argv) {
  string mode = argv[1]; uint64_t seed = strtoull(argv[2], 0, 10); int cases = atoi(argv[3]); bool ot = argc > 4 && atoi(argv[4]);
  HashInit(); signal(SIGPIPE, SIG_IGN);
  rs = seed * 0x9E3779B97F4A7C15ULL + 1; for (int i = 0; i < 5; i++) rnd();
  int fails = 0, term_hit = 0;
  for (int it = 0; it < cases && fails < 4; it++) {
    GenOpt o; bool term = mode.find("term") == 0; o.term = term; if (rn(6) == 0) { o.maxg = 40; } if (rn(8) == 0) { o.pub = o.consts = false; }
    if (term) o.maxg = 6;
    Circ c = gen(o);
    int cc = 1 + rn(mode.find("lm") != string::npos || term ? 6 : 4); if (mode.find("lm") != string::npos && cc < 2) cc = 2;
    int period = term ? 1 + rn(3) : 0;
    In x = geninp(c, cc);
    vector<int> m(c.out.size(), 0);
    int mk_ = rn(4); bool mixed = mode.find("mask") == 0 || mode == "str";
    if (mixed) { for (auto& y : m) y = mk_ == 0 ? 0 : mk_ == 1 ? 1 : (int)rn(2); if (mk_ == 3 && m.size() > 1) for (size_t i = m.size() / 2; i < m.size(); i++) m[i] = 0; }
    else for (auto& y : m) y = mk_ & 1;
    string mask = bits2hex(m);
    int ran = 0; vector<int> ref = simulate(c, x, cc, period, &ran);
    if (ran < cc) term_hit++;
    vector<int> ea(cc * c.out.size(), 0), eb(cc * c.out.size(), 0);
    for (size_t i = 0; i < ref.size(); i++) { if (m[i % c.out.size()]) ea[i] = ref[i]; else eb[i] = ref[i]; }
    int pert = it % 3 == 0 ? 0 : it % 3 == 1 ? 0xff : 0x5a; uint64_t ps = rnd(); bool noot = !ot || rn(2);
    string scd = "c.scd"; if (mode == "str") c.write(scd);
    string A, B; rnd();
    bool ok = with_child([&](int fd) { return runparty(false, mode, c, x, cc, mask, period, noot, fd, pert, ps, scd); }, [&](int fd) { return runparty(true, mode, c, x, cc, mask, period, noot, fd, pert, ps, scd); }, ot ? 20000 : 5000, &B, &A);
    std::ostringstream wa, wb;
    if (mode == "str") { bool lm = (rs & 1) && cc > 1; (void)lm; wa << "0 " << cc << " " << bits2hex(ea); wb << "0 " << cc << " " << bits2hex(eb); }
    else { wa << "0 " << ran << " " << bs(ea); wb << "0 " << ran << " " << bs(eb); }
    auto strip = [](string s) { size_t p = s.rfind(' '); if (p == string::npos) return s; string h = s.substr(p + 1); size_t z = h.find_first_not_of('0'); return s.substr(0, p + 1) + (z == string::npos ? "0" : h.substr(z)); };
    bool good = ok && (mode == "str" ? strip(A) == strip(wa.str()) && strip(B) == strip(wb.str()) : A == wa.str() && B == wb.str());
    if (!good) {
      fails++;
      printf("FAIL %s case %d: circuit {%s} cycles=%d terminate_period=%d mask=%s OT=%d p_init=%s g_init=%s e_init=%s p_in=%s g_in=%s e_in=%s\n  %s; Alice got [%s], expected [%s]; Bob got [%s], expected [%s] (return code, cycles run, output bits)\n", mode.c_str(), it, c.show().c_str(), cc, period, mask.c_str(), !noot,
        bs(x.pi).c_str(), bs(x.gi).c_str(), bs(x.ei).c_str(), bs(x.pin).c_str(), bs(x.gin).c_str(), bs(x.ein).c_str(), ok ? "both parties finished" : "a party crashed or did not finish", A.c_str(), wa.str().c_str(), B.c_str(), wb.str().c_str());
    }
  }
  printf("%s: %d failing cases of %d (early termination in %d)\n", mode.c_str(), fails, cases, term_hit);
  HashFinish();
  return fails ? 1 : 0;
}
