// Plaintext evaluator: random sequential circuits against an independent simulator; GateOperator against the truth tables. args: seed cases
#include "common.h"
#include "scd/scd_evaluator.h"
int EvalauatePlaintext(const string&, const GarbledCircuit&, const BIGNUM*, const BIGNUM*, const BIGNUM*, const BIGNUM*, const BIGNUM*, const BIGNUM*, uint64_t*, int64_t, BIGNUM**);
int main(int argc, char** argv) {
  uint64_t seed = strtoull(argv[1], 0, 10); int cases = atoi(argv[2]); int fails = 0, term = 0;
  rs = seed * 0x9E3779B97F4A7C15ULL + 1; for (int i = 0; i < 5; i++) rnd();
  for (int t : TYPES) for (int a = 0; a < 2; a++) for (int b = 0; b < 2; b++) if ((int)GateOperator(t, a, b) != gateval(t, a, b)) { fails++; printf("FAIL GateOperator(%s, %d, %d) = %d\n", tname(t), a, b, (int)GateOperator(t, a, b)); }
  for (int it = 0; it < cases && fails < 4; it++) {
    GenOpt o; o.term = rn(2); if (rn(5) == 0) { o.maxsz = 6; o.maxg = 40; o.maxdff = 6; }
    Circ c = gen(o); int cc = 1 + rn(6), period = o.term ? 1 + rn(3) : 0; In x = geninp(c, cc);
    int ran = 0; vector<int> ref = simulate(c, x, cc, period, &ran); if (ran < cc) term++;
    ref.resize(cc * c.out.size() + 64, 0);
    mallopt(M_PERTURB, it % 3 == 0 ? 0 : it % 3 == 1 ? 0xff : 0x5a);
    c.write("c.scd"); { std::ofstream m("c.scd.map"); m << "a " << c.isz() << "\nb " << c.wires() - 1 << "\n"; if (rn(2)) m << "terminate 0\n"; }
    bool str = rn(2); std::ostringstream got, want; 
    std::ostream* keep = log_map[0];
    if (!str) {
      GarbledCircuit gc; c.fill(&gc); uint64_t n = cc; BIGNUM* out = rn(2) ? BN_new() : nullptr; if (out && rn(2)) BN_set_bit(out, rn(cc * c.out.size() + 1));
      int r = EvalauatePlaintext("c.scd", gc, bits2bn(x.pi), bits2bn(x.gi), bits2bn(x.ei), bits2bn(x.pin), bits2bn(x.gin), bits2bn(x.ein), &n, period, &out);
      got << r << " " << n << " " << bs(bn2bits(out, cc * c.out.size() + 64)); want << "0 " << ran << " " << bs(ref);
    } else {
      string s; int r = EvalauatePlaintextStr("c.scd", bits2hex(x.pi), bits2hex(x.gi), bits2hex(x.ei), bits2hex(x.pin), bits2hex(x.gin), bits2hex(x.ein), cc, period, OutputMode::consecutive, &s);
      vector<int> v(ref.begin(), ref.begin() + ran * c.out.size()); 
      auto strip = [](string h) { size_t z = h.find_first_not_of('0'); return z == string::npos ? string("0") : h.substr(z); };
      got << r << " " << strip(s); want << "0 " << strip(bits2hex(v));
    }
    log_map[0] = keep;
    if (got.str() != want.str()) { fails++; printf("FAIL case %d (%s): circuit {%s} cycles=%d terminate_period=%d p_init=%s g_init=%s e_init=%s p_in=%s g_in=%s e_in=%s\n  got [%s], expected [%s]\n", it, str ? "EvalauatePlaintextStr" : "EvalauatePlaintext", c.show().c_str(), cc, period,
      bs(x.pi).c_str(), bs(x.gi).c_str(), bs(x.ei).c_str(), bs(x.pin).c_str(), bs(x.gin).c_str(), bs(x.ein).c_str(), got.str().c_str(), want.str().c_str()); }
  }
  printf("plain: %d failing cases of %d (early termination in %d)\n", fails, cases, term);
  return fails ? 1 : 0;
}
