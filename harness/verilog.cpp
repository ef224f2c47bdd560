// The netlist front end: random synthesised Verilog (mode verilog), malformed Verilog (mode reject), Bristol circuits (mode bristol), netlists of thousands of cells (mode big). args: mode seed cases
#include "common.h"
#include "scd/parse_netlist.h"
#include "scd/v_2_scd.h"
#include <functional>
#include <map>
#include <set>
static string num(uint64_t i) { return std::to_string(i); }
// ---- the netlist as written
struct Cell { int kind; string in[3], out[2]; };                 // kind: gate type, or 100 MUX (IN0 IN1 SEL -> F), 101 HADDER (IN0 IN1 -> SUM COUT), 102 FADDER (IN0 IN1 CIN -> SUM COUT)
struct Dff { string d, i, q; };
struct Mod { uint64_t sz[6], osz; bool term; vector<Cell> cells; vector<Dff> dffs; vector<std::pair<string, string>> as; vector<string> bits[6]; };
static const char* PN[6] = {"p_init", "g_init", "e_init", "p_input", "g_input", "e_input"};
static const char* CELLN(int k) { switch (k) { case ANDGATE: return "AND"; case ANDNGATE: return "ANDN"; case NANDGATE: return "NAND"; case NANDNGATE: return "NANDN"; case ORGATE: return "OR"; case ORNGATE: return "ORN"; case NORGATE: return "NOR"; case NORNGATE: return "NORN"; case XORGATE: return "XOR"; case XNORGATE: return "XNOR"; case NOTGATE: return "IV"; case 100: return "MUX"; case 101: return "HADDER"; default: return "FADDER"; } }
static int cell2(int k, int a, int b) { switch (k) { case ANDGATE: return a & b; case ANDNGATE: return a & !b; case NANDGATE: return !(a & b); case NANDNGATE: return !(a & !b); case ORGATE: return a | b; case ORNGATE: return a | !b; case NORGATE: return !(a | b); case NORNGATE: return !(a | !b); case XORGATE: return a ^ b; case XNORGATE: return !(a ^ b); default: return !a; } }
static bool big = false;           // mode big: thousands of cells, ports of hundreds of bits
static Mod rmod(bool constout) {
  Mod m; vector<string> drv, init; bool few = !big && rn(6) == 0, huge = big && rn(2);
  for (int p = 0; p < 6; p++) { m.sz[p] = big ? rn(3) ? rn(90) : rn(700) : few ? (rn(3) == 0) : rn(3) ? rn(5) : rn(14); for (uint64_t i = 0; i < m.sz[p]; i++) { string n = m.sz[p] == 1 && rn(2) ? string(PN[p]) : string(PN[p]) + "[" + num(i) + "]"; m.bits[p].push_back(n); drv.push_back(n); if (p < 3) init.push_back(n); } }
  int nd = big ? rn(400) : few ? rn(2) : rn(5); m.dffs.resize(nd); string pre = rn(2) ? "" : rn(2) ? "\\" : "u_";
  for (int i = 0; i < nd; i++) { m.dffs[i].q = rn(2) ? pre + "q" + num(i) : pre + "st_reg[" + num(i) + "]"; drv.push_back(m.dffs[i].q); }
  m.osz = big ? 1 + rn(600) : rn(8) ? 1 + rn(4) : rn(12); m.term = rn(3) == 0; vector<string> free; for (uint64_t i = 0; i < m.osz; i++) free.push_back(m.osz == 1 && rn(2) ? "o" : "o[" + num(i) + "]"); if (m.term) free.push_back("terminate");
  for (size_t i = free.size(); i > 1; i--) std::swap(free[i - 1], free[rn(i)]);
  int G = huge ? 66000 + rn(3000) : big ? 2000 + rn(3000) : few ? rn(3) : rn(30), al = 0; if (drv.empty() && !G) G = 1;
  auto pick = [&]() -> string { if (drv.empty() || rn(12) == 0) return rn(2) ? "1'b0" : "1'b1"; return !huge && rn(2) ? drv[drv.size() - 1 - rn(std::min<size_t>(drv.size(), big ? 40 : 4))] : drv[rn(drv.size())]; };
  auto name = [&](int i) -> string { if (!free.empty() && rn(4) == 0) { string s = free.back(); free.pop_back(); return s; } return rn(3) ? pre + "n" + num(i) : pre + "w_" + num(i / 3) + "[" + num(i) + "]"; };
  for (int i = 0; i < G; i++) {
    Cell c; int k = rn(15); c.kind = k < 11 ? TYPES[k] : k == 11 ? (int)NOTGATE : 100 + (k - 12); for (int j = 0; j < 3; j++) c.in[j] = pick();
    int w = c.kind > 100 ? rn(4) : 0; if (w != 1) c.out[0] = name(2 * i); if (w != 0) c.out[1] = name(2 * i + 1);
    for (int j = 0; j < 2; j++) if (c.out[j] != "") drv.push_back(c.out[j]);
    m.cells.push_back(c);
    if (rn(10) == 0 && !drv.empty()) { string a = pre + "al" + num(al++); m.as.push_back({a, pick()}); drv.push_back(a); }
  }
  for (auto& d : m.dffs) { d.d = pick(); d.i = init.empty() || rn(2) ? (rn(2) ? "1'b0" : "1'b1") : init[rn(init.size())]; }
  std::set<string> undriven(free.begin(), free.end()), isout(undriven);
  while (!free.empty()) { string s = free.back(); free.pop_back(); string d = pick(); if (!constout || s == "terminate") while (d[0] == '1' && !drv.empty()) d = drv[rn(drv.size())]; m.as.push_back({s, d}); if (rn(2)) drv.push_back(s); }
  for (size_t i = m.cells.size(); i > 1 && rn(8); i--) if (rn(3) == 0) std::swap(m.cells[i - 1], m.cells[rn(i)]);
  return m;
}
// reference simulation by name; in[p] gives the port bits of one cycle
typedef std::map<string, int> Env;
static int eval(const Mod& m, Env& e, const string& n, std::map<string, std::pair<const Cell*, int>>& dr, std::map<string, string>& as) {
  if (n == "1'b0") return 0; if (n == "1'b1") return 1; auto it = e.find(n); if (it != e.end()) return it->second;
  if (as.count(n)) { int v = eval(m, e, as[n], dr, as); return e[n] = v; }
  auto d = dr.at(n); const Cell& c = *d.first; int a = eval(m, e, c.in[0], dr, as), b = c.kind == NOTGATE ? 0 : eval(m, e, c.in[1], dr, as), s = c.kind == 100 || c.kind == 102 ? eval(m, e, c.in[2], dr, as) : 0, v;
  if (c.kind == 100) v = s ? b : a; else if (c.kind == 101) v = d.second ? a & b : a ^ b; else if (c.kind == 102) v = d.second ? (a + b + s) >> 1 : (a + b + s) & 1; else v = cell2(c.kind, a, b);
  return e[n] = v;
}
static string text(const Mod& m, int& mut) {      // mut: 0 none, else a defect is written in; set to -1 when there was nothing to spoil
  string s; auto ws = [&]() { int k = rn(12); return k < 7 ? string(" ") : k < 9 ? string("\n  ") : k == 9 ? string("\t") : k == 10 ? string("  ") : string(" \r\n"); };
  auto sp = [&]() { return rn(3) ? string("") : ws(); }; bool done = mut == 0; int want = mut;
  s += "module m_0 (" + sp() + "clk, rst"; for (int p = 0; p < 6; p++) if (m.sz[p]) s += ", " + sp() + PN[p]; if (m.osz) s += "," + sp() + "o"; if (m.term) s += ", terminate"; s += ");\n";
  string bad = want == 3 ? "g_in" : ""; bool oneclk = rn(2); s += oneclk ? "input clk, rst;\n" : "input clk;" + ws() + "input rst;\n"; vector<int> po; for (int p = 0; p < 6; p++) if (m.sz[p]) po.push_back(p); for (size_t i = po.size(); i > 1; i--) std::swap(po[i - 1], po[rn(i)]);
  auto rng = [&](uint64_t w) { return w == 1 && rn(2) ? string("") : "[" + num(w - 1) + ":0]" + ws(); };
  if (bad != "") { s += "input [3:0] " + bad + ";\n"; done = true; }
  for (size_t i = 0; i < po.size(); i++) { s += "input" + ws() + rng(m.sz[po[i]]) + PN[po[i]]; while (i + 1 < po.size() && m.sz[po[i + 1]] == m.sz[po[i]] && rn(2)) { i++; s += sp() + "," + sp() + PN[po[i]]; } s += sp() + ";" + ws(); }
  if (want == 4) { s += "output [2:0] out;\n"; done = true; }
  if (m.osz) s += "output " + rng(m.osz) + "o" + sp() + ";\n"; if (m.term) { if (want == 5) { s += "output [1:0] terminate;\n"; done = true; } else s += "output" + ws() + "terminate;\n"; }
  if (rn(2)) s += "wire n1000, n1001, n1002;\n"; if (rn(3) == 0) s += "wire [3:0] w_77;\n";
  struct St { int k; size_t i; }; vector<St> st; for (size_t i = 0; i < m.cells.size(); i++) st.push_back({0, i}); for (size_t i = 0; i < m.dffs.size(); i++) st.insert(st.begin() + rn(st.size() + 1), St{1, i});
  { size_t at = 0; for (size_t i = 0; i < m.as.size(); i++) { at = at + rn(st.size() - at + 1); st.insert(st.begin() + at, St{2, i}); at++; } }
  // flip-flops keep their order; statements are otherwise interleaved
  { vector<size_t> d; size_t n = 0; for (auto& x : st) if (x.k == 1) x.i = n++; n = 0; for (auto& x : st) if (x.k == 0) x.i = n++; }
  size_t hit = st.empty() ? 0 : rn(st.size()); int u = 0;
  for (size_t j = 0; j < st.size(); j++) {
    auto con = [&](const string& p, string v) { string w = v; size_t b = v.find('['); if (b != string::npos && rn(5) == 0) w = v.substr(0, b) + " " + v.substr(b); return "." + p + sp() + "(" + sp() + w + sp() + ")"; };
    vector<string> ps; string head; int nreq = 0;
    if (st[j].k == 2) { s += "assign" + ws() + m.as[st[j].i].first + ws() + "=" + ws() + m.as[st[j].i].second + sp() + ";" + ws(); continue; }
    if (st[j].k == 1) { const Dff& d = m.dffs[st[j].i]; head = "DFF"; ps = {con("D", d.d), con("I", d.i), con("Q", d.q)}; nreq = 3; ps.push_back(con("CLK", "clk")); ps.push_back(con("RST", "rst")); }
    else { const Cell& c = m.cells[st[j].i]; head = CELLN(c.kind);
      if (c.kind < 100) { ps.push_back(con("A", c.in[0])); if (c.kind != NOTGATE) ps.push_back(con("B", c.in[1])); ps.push_back(con("Z", c.out[0])); nreq = ps.size(); }
      else { ps = {con("IN0", c.in[0]), con("IN1", c.in[1])}; if (c.kind == 100) ps.push_back(con("SEL", c.in[2])); if (c.kind == 102) ps.push_back(con("CIN", c.in[2])); nreq = ps.size(); if (c.kind == 100) { ps.push_back(con("F", c.out[0])); nreq++; } else { if (c.out[0] != "" ) ps.push_back(con("SUM", c.out[0])); if (c.out[1] != "") ps.push_back(con("COUT", c.out[1])); } } }
    if (want == 1 && !done && j >= hit) { ps.erase(ps.begin() + rn(nreq)); done = true; }
    if (want == 2 && !done && j >= hit) { string& q = ps[0]; q = q.substr(0, q.find('(')) + "(nowhere)"; if (st[j].k == 1 || true) done = true; }
    for (size_t i = ps.size(); i > 1; i--) std::swap(ps[i - 1], ps[rn(i)]);
    s += head + ws() + (rn(4) ? "U" + num(u++) : "q_reg[" + num(u++) + "]") + sp() + "(" + sp(); for (size_t i = 0; i < ps.size(); i++) s += (i ? "," + sp() : "") + ps[i]; s += sp() + ")" + sp() + ";" + ws();
  }
  if (want == 6) done = true; else s += "\nendmodule"; if (rn(2)) s += "\n";
  if (!done) mut = -1; return s;
}
static int fails = 0;
#define BAD(...) do { fails++; printf("FAIL case %d: ", it); printf(__VA_ARGS__); printf("\n"); if (fails < 3 && src.size() < 100000) printf("---- the netlist\n%s----\n", src.c_str()); return; } while (0)
struct Sim { std::function<int64_t(int64_t, int)> in; std::function<int(int64_t)> ty; int64_t B, G; vector<int> val; vector<char> st;
  int get(int64_t w) { if (w == CONST_ZERO) return 0; if (w == CONST_ONE) return 1; if (w < 0 || w >= B + G) return -100; if (w < B) return val[w]; if (st[w] == 2) return val[w]; if (st[w] == 1) return -100; st[w] = 1; int64_t g = w - B; int t = ty(g), a = get(in(g, 0)), b = t == NOTGATE ? 0 : get(in(g, 1)); st[w] = 2; return val[w] = a < 0 || b < 0 ? -100 : cell2(t, a, b); } };
int main(int argc, char** argv) {
  string mode = argv[1]; big = mode == "big"; uint64_t seed = strtoull(argv[2], 0, 10); int cases = atoi(argv[3]);
  rs = seed * 0x9E3779B97F4A7C15ULL + 1; for (int i = 0; i < 5; i++) rnd();
  char dir[] = "/tmp/vhverXXXXXX"; if (!mkdtemp(dir)) return 2; string vf = string(dir) + "/a.v", sf = string(dir) + "/a.scd", mf = string(dir) + "/a.map";
  for (int it = 0; it < cases && fails < 4; it++) {
    [&] {
    string src; auto put = [&]() { FILE* f = fopen(vf.c_str(), "w"); fwrite(src.data(), 1, src.size(), f); fclose(f); };
    if (mode == "bristol") {
      uint64_t n1 = rn(6), n2 = rn(6), o, G = 1 + rn(25); if (n1 + n2 == 0) n1 = 1; o = 1 + rn(std::min<uint64_t>(G, 5)); uint64_t W = n1 + n2 + G; struct BG { int t; uint64_t a, b; }; vector<BG> g(G);
      std::ostringstream ss; ss << G << " " << W << "\n" << n1 << " " << n2 << "  " << o << "\n\n"; for (uint64_t i = 0; i < G; i++) { g[i] = {(int)rn(3), rn(n1 + n2 + i), rn(n1 + n2 + i)}; if (g[i].t) ss << "2 1 " << g[i].a << " " << g[i].b << " " << n1 + n2 + i << (g[i].t == 1 ? " XOR\n" : " AND\n"); else ss << "1 1 " << g[i].a << " " << n1 + n2 + i << " INV\n"; }
      src = ss.str(); put(); ReadCircuitString rs_; ReadCircuit rc; if (ParseBrisNetlist(vf, &rs_) != SUCCESS) BAD("ParseBrisNetlist failed"); if (IdAssignment(rs_, &rc) != SUCCESS) BAD("IdAssignment failed");
      if (rc.p_init_size || rc.g_init_size || rc.e_init_size || rc.p_input_size || rc.g_input_size != n1 || rc.e_input_size != n2 || rc.output_size != o || rc.gate_size != G || rc.dff_size || rc.gate_list.size() != G || rc.output_list.size() != o) BAD("sizes");
      Sim s; s.B = n1 + n2; s.G = G; s.in = [&](int64_t i, int k) { return rc.gate_list[i].input[k]; }; s.ty = [&](int64_t i) { return (int)rc.gate_list[i].type; };
      for (int r = 0; r < 6; r++) { s.val.assign(W, 0); s.st.assign(W, 0); vector<int> v(W); for (uint64_t i = 0; i < n1 + n2; i++) s.val[i] = v[i] = rn(2); for (uint64_t i = 0; i < G; i++) { int a = v[g[i].a], b = v[g[i].b]; v[n1 + n2 + i] = g[i].t == 0 ? !a : g[i].t == 1 ? a ^ b : a & b; } for (uint64_t i = 0; i < o; i++) if (s.get(rc.output_list[i]) != v[W - o + i]) BAD("output %d is %d, should be %d", (int)i, s.get(rc.output_list[i]), v[W - o + i]); }
      return;
    }
    bool constout = rn(4) == 0; Mod m = rmod(constout); int mut = mode == "reject" ? 1 + (int)rn(6) : 0; src = text(m, mut); if (mut < 0) return; put();
    ReadCircuitString rs_; ReadCircuit rc; int r1 = ParseNetlist(vf, &rs_), r2 = r1 == SUCCESS ? IdAssignment(rs_, &rc) : r1;
    if (mode == "reject") { static const char* W[] = {"", "a cell lacks a port", "a name is not connected to anything", "an input has an unknown name", "an output has an unknown name", "the terminate signal has two bits", "endmodule is missing"}; if (r2 == SUCCESS) BAD("accepted although %s", W[mut]); return; }
    if (r1 != SUCCESS) BAD("ParseNetlist failed");
    { string t = "terminate"; for (bool go = true; go;) { go = false; for (auto& a : m.as) if (a.first == t) { t = a.second; go = true; } } // number 0 stands for no terminate signal: a netlist whose terminate signal is wire 0 is refused
      bool zero = false; int64_t in = 0; for (int p = 0; p < 6 && !in; p++) if (m.sz[p]) { in = 1; zero = t == m.bits[p][0] || t == string(PN[p]) + "[0]" || (m.sz[p] == 1 && t == PN[p]); } if (!in) { if (m.dffs.size()) zero = t == m.dffs[0].q; else if (m.cells.size()) { const Cell& c = m.cells[0]; zero = c.kind <= 101 && t == (c.kind == 101 && c.out[0] == "" ? c.out[1] : c.out[0]) && c.kind != 100; if (c.kind > 101 || c.kind == 100) zero = false; } }
      if (m.term && zero) { if (r2 == SUCCESS) BAD("terminate signal is wire 0, and that number stands for none"); return; } } if (r2 != SUCCESS) BAD("IdAssignment failed");
    uint64_t got[6] = {rc.p_init_size, rc.g_init_size, rc.e_init_size, rc.p_input_size, rc.g_input_size, rc.e_input_size}; int64_t IN = 0; for (int p = 0; p < 6; p++) { if (got[p] != m.sz[p]) BAD("port %s has %d bits, should be %d", PN[p], (int)got[p], (int)m.sz[p]); IN += got[p]; }
    if (rc.output_size != m.osz || rc.output_list.size() != m.osz || rc.dff_size != m.dffs.size() || rc.dff_list.size() != m.dffs.size() || rc.gate_list.size() != rc.gate_size) BAD("counts: %d outputs, %d flip-flops", (int)rc.output_size, (int)rc.dff_size);
    if (rs_.has_terminate != m.term) BAD("terminate signal"); uint64_t ng = 0; for (auto& c : m.cells) ng += c.kind < 100 ? 1 : c.kind == 100 ? 3 : c.kind == 101 ? (c.out[0] != "") + (c.out[1] != "") : 1 + (c.out[0] != "") + 3 * (c.out[1] != "");
    bool plain = true; for (auto& c : m.cells) if (c.kind >= 100) plain = false; if (plain && rc.gate_size != m.cells.size()) BAD("%d gates, should be %d", (int)rc.gate_size, (int)m.cells.size());
    int64_t B = IN + rc.dff_size, G = rc.gate_size; if (plain) for (int64_t i = 0; i < G; i++) if (rc.gate_list[i].type != m.cells[i].kind) BAD("gate %d has type %d, should be %d", (int)i, (int)rc.gate_list[i].type, m.cells[i].kind);
    for (int64_t i = 0; i < G; i++) if (rc.gate_list[i].output != B + i) BAD("gate %d drives wire %ld", (int)i, (long)rc.gate_list[i].output); for (uint64_t i = 0; i < rc.dff_size; i++) if (rc.dff_list[i].output != IN + (int64_t)i) BAD("flip-flop %d drives wire %ld", (int)i, (long)rc.dff_list[i].output);
    std::map<string, std::pair<const Cell*, int>> dr; for (auto& c : m.cells) for (int j = 0; j < 2; j++) if (c.out[j] != "") dr[c.out[j]] = {&c, j}; std::map<string, string> as(m.as.begin(), m.as.end());
    // the whole pipeline, where it supports the netlist
    GarbledCircuit gc; bool pipe = !constout && G > 0 && (big || rn(3) == 0), ok = true; if (!constout) for (auto& a : m.as) if (a.first[0] == 'o' || a.first == "terminate") { string x = a.second; while (as.count(x)) x = as[x]; if (x[0] == '1') pipe = false; } for (auto& d : m.dffs) { string x = d.d; while (as.count(x)) x = as[x]; (void)x; }
    if (pipe) { if (Verilog2SCD(vf, mf, sf) != SUCCESS) BAD("Verilog2SCD failed"); if (ReadSCD(sf, &gc) != SUCCESS) BAD("ReadSCD failed"); }
    vector<std::pair<string, int64_t>> mp; if (pipe) { std::ifstream f(mf); string n; int64_t w; while (f >> n >> w) mp.push_back({n, w}); if (mp.size() != rc.dff_size + G + 1) BAD("mapping file: %d entries, should be %d", (int)mp.size(), (int)(rc.dff_size + G + 1)); if (mp.back().first != "terminate" || mp.back().second != gc.terminate_id) BAD("mapping file: terminate signal"); mp.pop_back(); std::set<int64_t> seen; for (auto& x : mp) if (x.second < IN || x.second >= B + G || !seen.insert(x.second).second) BAD("mapping file: wire %d", (int)x.second); for (uint64_t i = 0; i < rc.dff_size; i++) if (mp[i].first != m.dffs[i].q || mp[i].second != IN + (int64_t)i) BAD("mapping file: flip-flop %d", (int)i); mp.erase(mp.begin(), mp.begin() + rc.dff_size); }
    auto run = [&](Sim s, std::function<int64_t(int64_t)> D, std::function<int64_t(int64_t)> I, std::function<int64_t(int64_t)> O, int64_t T, const char* who) {
      vector<int> st(m.dffs.size()), st2(m.dffs.size());
      for (int cy = 0; cy < 4; cy++) { Env e; s.val.assign(B + G, 0); s.st.assign(B + G, 0); int64_t w = 0; static vector<int> initv; if (cy == 0) initv.clear();
        for (int p = 0; p < 6; p++) for (uint64_t i = 0; i < m.sz[p]; i++, w++) { int v = rn(2); if (p < 3) { if (cy == 0) initv.push_back(v); else v = initv[w]; } s.val[w] = v; e[m.bits[p][i]] = v; e[string(PN[p]) + "[" + num(i) + "]"] = v; if (m.sz[p] == 1) e[PN[p]] = v; }
        for (size_t i = 0; i < m.dffs.size(); i++) { if (cy == 0) { st[i] = eval(m, e, m.dffs[i].i, dr, as); st2[i] = s.get(I(i)); } s.val[IN + i] = st2[i]; e[m.dffs[i].q] = st[i]; }
        for (uint64_t i = 0; i < m.osz; i++) { string a = "o[" + num(i) + "]"; string n = m.osz == 1 && !dr.count(a) && !as.count(a) ? "o" : a; int x = eval(m, e, n, dr, as), y = s.get(O(i)); if (x != y) { printf("%s: output %d of cycle %d is %d, should be %d: ", who, (int)i, cy, y, x); ok = false; return; } }
        if (who[0] == 'S') for (auto& x : mp) if (dr.count(x.first) && eval(m, e, x.first, dr, as) != s.get(x.second)) { printf("mapping file: %s is not wire %d: ", x.first.c_str(), (int)x.second); ok = false; return; }
        if (m.term) { int x = eval(m, e, "terminate", dr, as), y = s.get(T); if (x != y) { printf("%s: terminate signal of cycle %d is %d, should be %d: ", who, cy, y, x); ok = false; return; } }
        vector<int> a(st.size()), b(st.size()); for (size_t i = 0; i < st.size(); i++) { a[i] = eval(m, e, m.dffs[i].d, dr, as); b[i] = s.get(D(i)); if (a[i] != b[i]) { printf("%s: flip-flop %d after cycle %d is %d, should be %d: ", who, (int)i, cy, b[i], a[i]); ok = false; return; } } st = a; st2 = b; } };
    for (int r = 0; r < 3 && ok; r++) { Sim s; s.B = B; s.G = G; s.in = [&](int64_t i, int k) { return rc.gate_list[i].input[k]; }; s.ty = [&](int64_t i) { return (int)rc.gate_list[i].type; };
      run(s, [&](int64_t i) { return rc.dff_list[i].input[0]; }, [&](int64_t i) { return rc.dff_list[i].input[1]; }, [&](int64_t i) { return (int64_t)rc.output_list[i]; }, rc.terminate_id, "circuit read");
      if (ok && pipe) { Sim t; t.B = B; t.G = gc.gate_size; t.in = [&](int64_t i, int k) { return k ? gc.garbledGates[i].input1 : gc.garbledGates[i].input0; }; t.ty = [&](int64_t i) { return (int)gc.garbledGates[i].type; }; run(t, [&](int64_t i) { return gc.D[i]; }, [&](int64_t i) { return gc.I[i]; }, [&](int64_t i) { return gc.outputs[i]; }, gc.terminate_id, "SCD file"); } }
    if (pipe) RemoveGarbledCircuit(&gc); if (!ok) BAD("the circuit computes something else");
    }();
  }
  unlink(vf.c_str()); unlink(sf.c_str()); unlink(mf.c_str()); rmdir(dir);
  printf("verilog %s: %d failing cases of %d\n", mode.c_str(), fails, cases);
  return fails ? 1 : 0;
}
