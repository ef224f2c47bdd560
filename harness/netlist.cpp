// The netlist back end: SortNetlist (mode sched) and WriteSCD/ReadSCD (mode scd). args: mode seed cases
#include "common.h"
#include "scd/scheduling.h"
#include "scd/v_2_scd.h"
struct Net { ReadCircuit c; ReadCircuitString s; bool cyc; };
static Net rnet(bool allow_cycle, bool big) {
  Net n; ReadCircuit& c = n.c; uint64_t* f[6] = {&c.p_init_size, &c.g_init_size, &c.e_init_size, &c.p_input_size, &c.g_input_size, &c.e_input_size};
  bool none = rn(12) == 0; for (auto p : f) *p = none ? 0 : rn(4); c.dff_size = none ? 0 : rn(4); c.gate_size = big ? rn(400) : 1 + rn(20); if (!c.get_init_input_size() && !c.dff_size && !c.gate_size) c.gate_size = 1;
  int64_t B = c.get_init_input_size() + c.dff_size, G = c.gate_size, N = B + G;
  vector<int64_t> perm(G); for (int64_t i = 0; i < G; i++) perm[i] = i; int sh = rn(4); for (int64_t i = G - 1; i > 0 && sh; i--) if (sh == 1 || rn(3) == 0) std::swap(perm[i], perm[rn(i + 1)]);
  vector<int64_t> rank(G); for (int64_t i = 0; i < G; i++) rank[perm[i]] = i;      // hidden order
  c.gate_list.resize(G); n.s.gate_list_string.resize(G); c.dff_list.resize(c.dff_size); n.s.dff_list_string.resize(c.dff_size);
  auto wire = [&](int64_t r) -> int64_t { int k = rn(10); if (k == 0) return CONST_ZERO; if (k == 1) return CONST_ONE; if (r > 0 && (k < 7 || !B)) return B + perm[k < 5 ? r - 1 - (int64_t)rn(std::min<int64_t>(r, 4)) : (int64_t)rn(r)]; return B ? (int64_t)rn(B) : (int64_t)CONST_ZERO; };
  for (int64_t i = 0; i < G; i++) { int t = TYPES[rn(11)]; c.gate_list[i].type = t; c.gate_list[i].output = B + i; c.gate_list[i].input[0] = wire(rank[i]); c.gate_list[i].input[1] = t == NOTGATE ? -1 : wire(rank[i]); n.s.gate_list_string[i].output = "g" + std::to_string(i); }
  int64_t isz = c.p_init_size + c.g_init_size + c.e_init_size;
  for (uint64_t i = 0; i < c.dff_size; i++) { c.dff_list[i].type = 20; c.dff_list[i].input[0] = rn(N); c.dff_list[i].input[1] = isz && rn(2) ? (int64_t)rn(isz) : rn(2) ? CONST_ZERO : CONST_ONE; c.dff_list[i].output = c.get_init_input_size() + i; }
  c.output_size = rn(8); for (uint64_t i = 0; i < c.output_size; i++) c.output_list.push_back(rn(N)); c.terminate_id = rn(2) ? rn(N) : 0;
  if (allow_cycle && rn(3) == 0 && G) { int64_t a = rn(G); vector<int64_t> v(1, a); int64_t x = a; for (int k = rn(6); k > 0; k--) { int64_t y = c.gate_list[x].input[rn(2)]; if (y < B) break; x = y - B; v.push_back(x); } c.gate_list[x].input[rn(2)] = B + a; }
  // cyclic? (independent: repeatedly remove gates whose inputs are all removed)
  vector<char> done(N, 0); for (int64_t i = 0; i < B; i++) done[i] = 1; bool ch = true; int64_t left = G;
  while (ch) { ch = false; for (int64_t i = 0; i < G; i++) if (!done[B + i]) { bool ok = true; for (int k = 0; k < 2; k++) { int64_t x = c.gate_list[i].input[k]; if (x >= 0 && !done[x]) ok = false; } if (ok) { done[B + i] = 1; ch = true; left--; } } }
  n.cyc = left > 0; return n;
}
static int fails = 0;
#define BAD(...) do { fails++; printf("FAIL case %d: ", it); printf(__VA_ARGS__); printf("\n"); return; } while (0)
int main(int argc, char** argv) {
  string mode = argv[1]; uint64_t seed = strtoull(argv[2], 0, 10); int cases = atoi(argv[3]);
  rs = seed * 0x9E3779B97F4A7C15ULL + 1; for (int i = 0; i < 5; i++) rnd();
  char dir[] = "/tmp/vhnetXXXXXX"; if (mode == "scd" && !mkdtemp(dir)) return 2; string file = string(dir) + "/a.scd";
  for (int it = 0; it < cases && fails < 4; it++) {
    [&] { Net n = rnet(mode == "sched", rn(10) == 0); ReadCircuit o = n.c; ReadCircuit& c = n.c; int64_t B = c.get_init_input_size() + c.dff_size, G = c.gate_size, N = B + G;
    if (mode == "sched") {
      int r = SortNetlist(&c, n.s);
      if (n.cyc) { if (r == SUCCESS) BAD("SortNetlist accepts a cyclic netlist of %ld gates", (long)G); return; }
      if (r != SUCCESS) BAD("SortNetlist refuses an acyclic netlist of %ld gates, %ld inputs and flip-flops", (long)G, (long)B);
      auto num = [&](int64_t w) { return w < 0 ? w : w < B ? w : c.gate_list[w - B].output; };
      vector<int> seen(N, 0); if ((int64_t)c.task_schedule.size() != G || (int64_t)c.gate_list.size() != G) BAD("sizes");
      for (int64_t i = 0; i < G; i++) { int64_t x = c.gate_list[i].output; if (x < B || x >= N || seen[x]++) BAD("gate %ld of %ld gets number %ld (base %ld)", (long)i, (long)G, (long)x, (long)B); if (c.gate_list[i].type != o.gate_list[i].type) BAD("type of gate %ld", (long)i);
        if ((int64_t)c.task_schedule[x - B] != i) BAD("schedule does not list gate %ld at its number", (long)i);
        for (int k = 0; k < 2; k++) { if (c.gate_list[i].input[k] != num(o.gate_list[i].input[k])) BAD("input %d of gate %ld: wire %ld renumbered to %ld, expected %ld (base %ld)", k, (long)i, (long)o.gate_list[i].input[k], (long)c.gate_list[i].input[k], (long)num(o.gate_list[i].input[k]), (long)B); if (c.gate_list[i].input[k] >= x) BAD("gate %ld comes before its input %d", (long)i, k); } }
      for (uint64_t i = 0; i < c.dff_size; i++) { for (int k = 0; k < 2; k++) if (c.dff_list[i].input[k] != num(o.dff_list[i].input[k])) BAD("input %d of flip-flop %d", k, (int)i); if (c.dff_list[i].output != o.dff_list[i].output) BAD("output of flip-flop %d", (int)i); }
      if (c.output_list.size() != o.output_list.size()) BAD("outputs"); for (uint64_t i = 0; i < c.output_size; i++) if ((int64_t)c.output_list[i] != num(o.output_list[i])) BAD("output %d: wire %ld renumbered to %ld, expected %ld", (int)i, (long)o.output_list[i], (long)c.output_list[i], (long)num(o.output_list[i]));
      if (c.terminate_id != (o.terminate_id ? (uint64_t)num(o.terminate_id) : 0)) BAD("terminate signal %ld -> %ld", (long)o.terminate_id, (long)c.terminate_id);
    } else {
      c.task_schedule.resize(G); for (int64_t i = 0; i < G; i++) c.task_schedule[i] = i; for (int64_t i = G - 1; i > 0; i--) std::swap(c.task_schedule[i], c.task_schedule[rn(i + 1)]);
      if (rn(3) == 0) for (auto& g : c.gate_list) for (int k = 0; k < 2; k++) if (rn(3) == 0) g.input[k] = (int64_t)(rnd() >> 20);      // large wire numbers
      GarbledCircuit g; memset(&g, 0x5a, sizeof g);
      if (WriteSCD(c, file) != 0) BAD("WriteSCD failed"); if (ReadSCD(file, &g) != SUCCESS) BAD("ReadSCD failed");
      uint64_t a[10] = {c.p_init_size, c.g_init_size, c.e_init_size, c.p_input_size, c.g_input_size, c.e_input_size, c.dff_size, c.output_size, c.terminate_id, c.gate_size}, b[10] = {g.p_init_size, g.g_init_size, g.e_init_size, g.p_input_size, g.g_input_size, g.e_input_size, g.dff_size, g.output_size, g.terminate_id, g.gate_size};
      for (int i = 0; i < 10; i++) if (a[i] != b[i]) BAD("header field %d: wrote %ld, read %ld", i, (long)a[i], (long)b[i]);
      for (int64_t i = 0; i < G; i++) { auto& x = c.gate_list[c.task_schedule[i]]; auto& y = g.garbledGates[i]; if (x.input[0] != y.input0 || x.input[1] != y.input1 || x.type != y.type || y.output != B + i) BAD("gate %ld: wrote (%ld, %ld, type %d), read (%ld, %ld, type %d) output %ld (base %ld)", (long)i, (long)x.input[0], (long)x.input[1], (int)x.type, (long)y.input0, (long)y.input1, (int)y.type, (long)y.output, (long)B); }
      for (uint64_t i = 0; i < c.output_size; i++) if ((int64_t)c.output_list[i] != g.outputs[i]) BAD("output %d", (int)i);
      for (uint64_t i = 0; i < c.dff_size; i++) if (c.dff_list[i].input[0] != g.D[i] || c.dff_list[i].input[1] != g.I[i]) BAD("flip-flop %d: wrote D %ld I %ld, read D %ld I %ld", (int)i, (long)c.dff_list[i].input[0], (long)c.dff_list[i].input[1], (long)g.D[i], (long)g.I[i]);
      RemoveGarbledCircuit(&g);
    }
    }();
  }
  if (mode == "scd") { unlink(file.c_str()); rmdir(dir); }
  printf("netlist %s: %d failing cases of %d\n", mode.c_str(), fails, cases);
  return fails ? 1 : 0;
}
