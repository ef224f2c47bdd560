// bounded: SendData/RecvData over a real socketpair whose read/write/send/recv are cut short, or fail, at random
// sock <seed> <cases>
#include "common.h"
#include "tcpip/tcpip.h"
#include <sys/syscall.h>
#include <thread>
static int cutfd = -1, failat = -1, failhow = 0, ncalls = 0;
static bool inject(int fd, size_t& n, ssize_t& r) {
  if (fd != cutfd) return false;
  if (++ncalls == failat) { errno = ECONNRESET; r = failhow ? -1 : 0; return true; }
  if (n > 1) { int z = rn(4); n = z == 0 ? 1 : z == 1 ? n : 1 + rn(n); }
  return false;
}
extern "C" ssize_t write(int fd, const void* p, size_t n) { ssize_t r; if (inject(fd, n, r)) return r; return syscall(SYS_write, fd, p, n); }
extern "C" ssize_t read(int fd, void* p, size_t n) { ssize_t r; if (inject(fd, n, r)) return r; return syscall(SYS_read, fd, p, n); }
extern "C" ssize_t send(int fd, const void* p, size_t n, int fl) { ssize_t r; if (inject(fd, n, r)) return r; return syscall(SYS_sendto, fd, p, n, fl, 0, 0); }
extern "C" ssize_t recv(int fd, void* p, size_t n, int fl) { ssize_t r; if (!(fl & MSG_WAITALL) && inject(fd, n, r)) return r; return syscall(SYS_recvfrom, fd, p, n, fl, 0, 0); }
static bool rawread(int fd, unsigned char* p, size_t n) { size_t o = 0; while (o < n) { ssize_t k = syscall(SYS_read, fd, p + o, n - o); if (k <= 0) return false; o += k; } return true; }
static bool rawwrite(int fd, const unsigned char* p, size_t n) { size_t o = 0; while (o < n) { ssize_t k = syscall(SYS_write, fd, p + o, n - o); if (k <= 0) return false; o += k; } return true; }
static int cse(uint64_t i) {
  bool snd = rn(2); int len; int z = rn(8); len = z == 0 ? 0 : z == 1 ? -(int)rn(5) : z == 2 ? 1 + rn(3) : z == 3 ? 100000 + rn(300000) : 1 + rn(5000);
  int n = len > 0 ? len : 0, pre = rn(20), post = 8 + rn(20); bool fail = rn(4) == 0 && n > 0;
  int sv[2]; if (socketpair(AF_UNIX, SOCK_STREAM, 0, sv)) { perror("socketpair"); exit(3); }
  vector<unsigned char> buf(pre + n + post), peer(n + 64);
  for (auto& c : buf) c = rnd(); for (auto& c : peer) c = rnd();
  vector<unsigned char> b0 = buf; string bad;
  cutfd = sv[0]; ncalls = 0; failat = fail ? 1 + (int)rn(3) : -1; failhow = rn(2);
  int r; bool failed; size_t got = 0;
  if (snd) {
    vector<unsigned char> seen; std::thread t([&] { unsigned char x[65536]; for (;;) { ssize_t k = syscall(SYS_read, sv[1], x, sizeof x); if (k <= 0) break; seen.insert(seen.end(), x, x + k); } });
    r = SendData(sv[0], buf.data() + pre, len); failed = failat > 0 && ncalls >= failat; cutfd = -1; shutdown(sv[0], SHUT_WR); t.join();
    got = seen.size();
    if (buf != b0) bad = "SendData modified its buffer";
    if (got > (size_t)n || !std::equal(seen.begin(), seen.end(), b0.begin() + pre)) bad = "SendData put other bytes on the stream than the buffer's";
    if (!failed && got != (size_t)n) bad = "SendData sent " + std::to_string(got) + " bytes instead of " + std::to_string(n);
  } else {
    std::thread t([&] { rawwrite(sv[1], peer.data(), n + 64); shutdown(sv[1], SHUT_WR); });
    r = RecvData(sv[0], buf.data() + pre, len); failed = failat > 0 && ncalls >= failat; cutfd = -1;
    for (int k = 0; k < pre; k++) if (buf[k] != b0[k]) bad = "RecvData wrote before its buffer";
    for (int k = 0; k < post; k++) if (buf[pre + n + k] != b0[pre + n + k]) bad = "RecvData wrote past its buffer";
    if (!failed) { for (int k = 0; k < n; k++) if (buf[pre + k] != peer[k]) { bad = "RecvData: byte " + std::to_string(k) + " is not the stream's"; break; }
      vector<unsigned char> rest(64); if (bad.empty() && (!rawread(sv[0], rest.data(), 64) || !std::equal(rest.begin(), rest.end(), peer.begin() + n))) bad = "RecvData consumed more than len bytes of the stream"; }
    else { shutdown(sv[0], SHUT_RDWR); unsigned char x[65536]; while (syscall(SYS_read, sv[0], x, sizeof x) > 0) {} }
    t.join();
  }
  if (failed ? r != FAILURE : r != SUCCESS) bad = string(failed ? "a failed transfer was reported as " : "a complete transfer was reported as ") + std::to_string(r);
  close(sv[0]); close(sv[1]);
  if (!bad.empty()) { printf("FAIL case %lu: %s of %d bytes, injected failure at call %d: %s\n", (unsigned long)i, snd ? "SendData" : "RecvData", len, failat, bad.c_str()); return 1; }
  return 0;
}
int main(int c, char** v) {
  signal(SIGPIPE, SIG_IGN); uint64_t seed = strtoull(v[1], 0, 10), n = strtoull(v[2], 0, 10); alarm(280);
  for (uint64_t i = 0; i < n; i++) { rs = 88172645463325252ULL ^ (seed * 1000003 + i) * 0x9E3779B97F4A7C15ULL; for (int k = 0; k < 5; k++) rnd(); if (cse(i)) return 1; }
  printf("ok %lu transfers\n", (unsigned long)n); return 0;
}
