// Bob (low- or high-memory) against a peer that announces more tables than there are gates; Bob must refuse before storing them
#include "common.h"
#include "tcpip/tcpip.h"
int main(int argc, char** argv) {
  bool lm = string(argv[1]) == "lm"; uint64_t announce = strtoull(argv[2], 0, 0); signal(SIGPIPE, SIG_IGN);
  Circ c; memset(c.sz, 0, sizeof c.sz); c.sz[4] = 2; c.dff = 0; c.term = 0; GarbledGate g; memset(&g, 0, sizeof g); g.input0 = 0; g.input1 = 1; g.output = 2; g.type = ANDGATE; c.g = {g}; c.out = {2};
  string a, b;
  bool ok = with_child([&](int fd) { GarbledCircuit gc; c.fill(&gc); FillFanout(&gc); BIGNUM *z = BN_new(), *o = BN_new(); BN_zero(z); BN_zero(o); uint64_t n = 1; block key = mk(1, 2);
      int r = lm ? EvaluateBNLowMem(gc, z, z, z, z, &n, "0", 0, OutputMode::consecutive, o, key, true, fd) : EvaluateBNHighMem(gc, z, z, z, z, &n, "0", 0, OutputMode::consecutive, o, key, true, fd);
      size_t left = 0; char buf[4096]; ssize_t k; while ((k = read(fd, buf, sizeof buf)) > 0) left += k;
      return string(r == SUCCESS ? "accepted" : left == 1 << 20 ? "refused" : "stored more tables than the buffer holds"); },
    [&](int fd) { block l[2] = {mk(3, 4), mk(5, 6)}; SendData(fd, &l[0], 16); SendData(fd, &l[1], 16); SendData(fd, &announce, 8); vector<char> junk(1 << 20, 'A'); SendData(fd, junk.data(), junk.size()); usleep(20000); shutdown(fd, SHUT_WR); return string("done"); }, 15000, &b, &a);
  printf("announced %llu tables for 1 gate: %s (Bob: %s)\n", (unsigned long long)announce, ok ? "both finished" : "a party crashed or hung", b.c_str());
  if (b == "refused") return 0; printf("FAIL\n"); return 1;
}
