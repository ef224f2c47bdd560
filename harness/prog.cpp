// The command-line programs (their own main functions; only the four calls that open and close the connection are replaced by a socketpair): random circuits, every option, against an independent simulator.
// args: mode seed cases ot(0/1); modes: parties (TinyGarble --alice against --bob), eval (SCD_Evaluator)
#include "common.h"
#include <fcntl.h>
#include <cstdarg>
#include <boost/format.hpp>
#include <boost/program_options.hpp>
#include "crypto/OT_extension.h"
#include "tcpip/tcpip.h"
#include "scd/scd_evaluator.h"
#include "util/tinygarble_config.h"
static int the_fd = -1, the_port = 0; static string the_ip;
static int vt_server(int port) { the_port = port; return the_fd; }
static int vt_client(const char* ip, int port) { the_port = port; the_ip = ip; return the_fd; }
#define ServerInit(p) vt_server(p)
#define ClientInit(a, p) vt_client(a, p)
#define ServerClose(f) ((void)(f))
#define ClientClose(f) ((void)(f))
#define LogInitial(a, b) ((void)0)
#define LogFinish() ((void)0)
#define main tg_main
#include "garbled_circuit/garbled_circuit_main.cpp"
#undef main
#define main ev_main
#include "scd/scd_evaluator_main.cpp"
#undef main
static string refhex(const vector<int>& b, size_t lo, size_t n) {
  vector<int> v; for (size_t i = 0; i < n; i++) v.push_back(lo + i < b.size() ? b[lo + i] : 0);
  while (!v.empty() && !v.back()) v.pop_back();
  if (v.empty()) return "0";
  while (v.size() % 8) v.push_back(0);
  string s; for (size_t i = v.size(); i; i -= 4) s += "0123456789ABCDEF"[v[i - 1] * 8 + v[i - 2] * 4 + v[i - 3] * 2 + v[i - 4]];
  return s;
}
static string reftext(const vector<int>& b, size_t os, int ran, int mode) {
  string w; if (mode == 0) return refhex(b, 0, b.size()); if (mode == 2) return refhex(b, (ran - 1) * os, os);
  for (int i = 0; i < ran; i++) w += (i ? "\n" : "") + refhex(b, i * os, os); return w;
}
typedef int (*Main)(int, char**);
static string program(Main f, const vector<string>& a, const string& outf) {      // what the program prints and returns
  fflush(stdout); int keep = dup(1), o = open(outf.c_str(), O_CREAT | O_TRUNC | O_RDWR, 0600); dup2(o, 1);
  vector<char*> v; for (auto& s : a) v.push_back(const_cast<char*>(s.c_str())); v.push_back(nullptr);
  int r = f(a.size(), v.data()); std::cout.flush(); fflush(stdout); dup2(keep, 1); close(keep); close(o);
  std::ifstream in(outf); std::stringstream s; s << in.rdbuf(); string t = s.str(); while (!t.empty() && t.back() == '\n') t.pop_back();
  return std::to_string(r) + " " + t;
}
// a number given on the command line: as hexadecimal digits, or in a file whose last line is the most significant
static int nfile = 0;
static string given(const vector<int>& v) {
  string h = bits2hex(v); if (rn(3) == 0) for (auto& c : h) c = tolower(c); if (rn(4) == 0) h = string(rn(3), '0') + h; if (rn(3)) return h; bool lines = rn(8) == 0; if (lines) h = string(rn(900), '0') + h;
  string f = "in" + std::to_string(nfile++ % 64) + ".hex"; std::ofstream o(f); size_t e = h.size(); bool last = rn(2); int w = 1 + (lines ? rn(600) : rn(9));
  while (e) { size_t n = std::min<size_t>(e, rn(3) ? w : 1 + rn(9)); o << h.substr(e - n, n); e -= n; if (e || last) o << "\n"; }
  return f;
}
static string show(const vector<string>& a) { string s; for (auto& x : a) s += " " + x; return s; }
int main(int argc, char** argv) {
  string mode = argv[1]; uint64_t seed = strtoull(argv[2], 0, 10); int cases = atoi(argv[3]); bool ot = argc > 4 && atoi(argv[4]);
  signal(SIGPIPE, SIG_IGN); rs = seed * 0x9E3779B97F4A7C15ULL + 1; for (int i = 0; i < 5; i++) rnd();
  int fails = 0, cut = 0;
  for (int it = 0; it < cases && fails < 4; it++) {
    GenOpt o; o.term = rn(3) == 0; o.maxg = rn(4) ? 8 : 30; Circ c = gen(o); int cc = rn(4) ? 1 + rn(6) : 1, period = o.term && rn(3) ? 1 + rn(3) : 0; In x = geninp(c, cc);
    int os = c.out.size(), ran = 0; vector<int> ref = simulate(c, x, cc, period, &ran); if (ran < cc) cut++;
    string scd = "c" + std::to_string(it % 4) + ".scd"; c.write(scd); int om = rn(3); bool dflt = om == 0 && rn(2);
    const char* names[3] = {"consecutive", "separated_clock", "last_clock"}; string omn = rn(2) ? names[om] : std::to_string(om);
    auto opt = [&](vector<string>& a, const string& l, const string& s, const string& v) { int k = rn(s == "" ? 2 : 3); if (k == 0) { a.push_back("--" + l); a.push_back(v); } else if (k == 1) a.push_back("--" + l + "=" + v); else { a.push_back("-" + s); a.push_back(v); } };
    auto num = [&](vector<string>& a, const string& l, const vector<int>& v) { bool z = true; for (int b : v) if (b) z = false; if (z && rn(2)) return; opt(a, l, "", given(v)); };
    auto shuffled = [&](vector<string> a, Main) { return a; };
    if (mode == "eval") {
      { std::ofstream m(scd + ".map"); m << "a " << c.isz() << "\n"; }
      vector<string> a = {"SCD_Evaluator"}; opt(a, "scd_file", "i", scd); if (cc != 1 || rn(2)) opt(a, "clock_cycles", "c", std::to_string(cc)); if (period || rn(2)) opt(a, "terminate_period", "t", std::to_string(period)); if (!dflt) opt(a, "output_mode", "", omn);
      num(a, "p_init", x.pi); num(a, "g_init", x.gi); num(a, "e_init", x.ei); num(a, "p_input", x.pin); num(a, "g_input", x.gin); num(a, "e_input", x.ein);
      string got, dummy, want = "0 " + reftext(ref, os, ran, om);
      bool ok = with_child([&](int) { return string(); }, [&](int) { return program(ev_main, a, "out_e"); }, 5000, &dummy, &got);
      if (!ok || got != want) { fails++; printf("FAIL case %d:%s\n circuit {%s}\n p_init=%s g_init=%s e_init=%s p_in=%s g_in=%s e_in=%s\n got [%s], expected [%s]\n", it, show(a).c_str(), c.show().c_str(), bs(x.pi).c_str(), bs(x.gi).c_str(), bs(x.ei).c_str(), bs(x.pin).c_str(), bs(x.gin).c_str(), bs(x.ein).c_str(), ok ? got.c_str() : "crash", want.c_str()); }
      continue;
    }
    vector<int> m(os, 0); int mk_ = rn(4); for (auto& y : m) y = mk_ == 0 ? 0 : mk_ == 1 ? 1 : (int)rn(2);
    vector<int> ea(ref), eb(ref); for (size_t i = 0; i < ref.size(); i++) (m[i % os] ? eb : ea)[i] = 0;
    bool noot = !ot || rn(2), low = rn(2); string mask = bits2hex(m); int port = 2000 + rn(5000); bool dp = rn(2); string ip = rn(2) ? "10.1.2.3" : "";
    vector<string> A = {"TinyGarble", rn(2) ? "--alice" : "-a"}, B = {"TinyGarble", rn(2) ? "--bob" : "-b"};
    for (auto* q : {&A, &B}) {
      auto& a = *q; opt(a, "scd_file", "i", scd); if (cc != 1 || rn(2)) opt(a, "clock_cycles", "c", std::to_string(cc)); if (period || rn(2)) opt(a, "terminate_period", "t", std::to_string(period)); if (!dflt) opt(a, "output_mode", "", omn);
      if (noot) a.push_back("--disable_OT"); if (low) a.push_back("--low_mem_foot"); if (mk_ || rn(2)) opt(a, "output_mask", "", mask); if (!dp) opt(a, "port", "p", std::to_string(port));
      num(a, "p_init", x.pi); num(a, "p_input", x.pin); num(a, "init", q == &A ? x.gi : x.ei); num(a, "input", q == &A ? x.gin : x.ein);
    }
    if (ip != "") opt(B, "server_ip", "s", ip);
    string ga, gb, conn = " port " + std::to_string(dp ? 1234 : port), wa = "0 " + reftext(ea, os, ran, om) + conn, wb = "0 " + reftext(eb, os, ran, om) + conn + " server " + (ip != "" ? ip : "127.0.0.1");
    bool ok = with_child([&](int fd) { the_fd = fd; string s = program(tg_main, B, "out_b"); return s + " port " + std::to_string(the_port) + " server " + the_ip; }, [&](int fd) { the_fd = fd; string s = program(tg_main, A, "out_a"); return s + " port " + std::to_string(the_port); }, ot ? 20000 : 8000, &gb, &ga);
    if (!ok || ga != wa || gb != wb) { fails++; printf("FAIL case %d:\n Alice:%s\n Bob:%s\n circuit {%s}\n p_init=%s g_init=%s e_init=%s p_in=%s g_in=%s e_in=%s\n %s; Alice [%s], expected [%s]; Bob [%s], expected [%s] (exit code, text printed)\n", it, show(A).c_str(), show(B).c_str(), c.show().c_str(), bs(x.pi).c_str(), bs(x.gi).c_str(), bs(x.ei).c_str(), bs(x.pin).c_str(), bs(x.gin).c_str(), bs(x.ein).c_str(), ok ? "both finished" : "a program crashed or did not finish", ga.c_str(), wa.c_str(), gb.c_str(), wb.c_str()); }
  }
  printf("prog %s: %d failing cases of %d (early termination in %d)\n", mode.c_str(), fails, cases, cut);
  return fails ? 1 : 0;
}
