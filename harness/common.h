// Shared driver of the bounded checks: seeded cases, log, replay, crash and hang reporting.
#ifndef VP_COMMON_H
#define VP_COMMON_H
#include <cstdio>
#include <cstdlib>
#include <cstdint>
#include <cstdarg>
#include <cstring>
#include <csignal>
#include <ctime>
#include <vector>
#include <string>
#include <algorithm>
#include <map>
#include <iostream>
#include <sstream>
#include <set>
#include <unistd.h>
#include <new>
#if defined(__SANITIZE_ADDRESS__)
extern "C" void __sanitizer_set_death_callback(void (*)(void));
#endif
struct Rng {
  uint64_t s;
  explicit Rng(uint64_t x): s(x * 0x9E3779B97F4A7C15ull + 0x123456789ull) {next(); next();}
  uint64_t next() { uint64_t z = (s += 0x9E3779B97F4A7C15ull); z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ull; z = (z ^ (z >> 27)) * 0x94D049BB133111EBull; return z ^ (z >> 31); }
  uint64_t below(uint64_t n) { return n == 0 ? 0 : next() % n; }
  int range(int a, int b) { return a + (int)below((uint64_t)(b - a) + 1); }
  bool chance(int num, int den) { return (int)below(den) < num; }
};
namespace vp {
  static char LOG[1 << 16]; static size_t LOGN = 0; static uint64_t CASE = 0, SEED = 1; static uint64_t OPS = 0;
  static const char* PHASE = "";
  static void logf(const char* f, ...) {
    if (LOGN + 300 > sizeof LOG) { memmove(LOG, LOG + sizeof(LOG)/2, LOGN - sizeof(LOG)/2); LOGN -= sizeof(LOG)/2; }
    va_list a; va_start(a, f); int n = vsnprintf(LOG + LOGN, 290, f, a); va_end(a); if (n > 0) LOGN += n < 290 ? n : 289;
  }
  static int OUT = 1;
  static void wr(const char* s, size_t n) { while (n) { ssize_t k = write(OUT, s, n); if (k <= 0) return; s += k; n -= k; } }
  static void report(const char* what) {
    char b[600]; int n = snprintf(b, sizeof b, "\nFAIL %.400s\nfailing case: %llu seed: %llu\nhistory of the case:\n", what, (unsigned long long)CASE, (unsigned long long)SEED);
    wr(b, n); size_t from = LOGN > 6000 ? LOGN - 6000 : 0; if (from) wr("...\n", 4); wr(LOG + from, LOGN - from); wr("\n", 1);
  }
  [[noreturn]] static void fail(const char* f, ...) {
    char b[1000]; va_list a; va_start(a, f); vsnprintf(b, sizeof b, f, a); va_end(a);
    report(b); _exit(1);
  }
  static bool reported = false;
  static void onsig(int s) {
    if (reported) _exit(1); reported = true;
    report(s == SIGALRM ? "the operation does not end (time limit of one case)" : s == SIGABRT ? "the program aborts" : "the program crashes (signal)");
    _exit(1);
  }
  static void ondeath() { if (!reported) { reported = true; report("memory error reported by the address sanitizer"); } }
}
#define L(...) vp::logf(__VA_ARGS__)
#define CHECK(c, ...) do { if (!(c)) vp::fail(__VA_ARGS__); } while (0)
// one case; `level` grows with the case number
void run_case(Rng& r, uint64_t number);
int main(int argc, char** argv) {
  uint64_t cases = 1000, only = 0; bool one = false; double secs = 10;
  for (int i = 1; i + 1 < argc; i += 2) {
    std::string a = argv[i]; unsigned long long v = strtoull(argv[i+1], 0, 10);
    if (a == "--seed") vp::SEED = v; else if (a == "--cases") cases = v; else if (a == "--seconds") secs = atof(argv[i+1]); else if (a == "--case") { only = v; one = true; }
  }
  vp::OUT = dup(1);
  static char alt[1 << 16]; stack_t ss; ss.ss_sp = alt; ss.ss_size = sizeof alt; ss.ss_flags = 0; sigaltstack(&ss, 0);
  struct sigaction sa; memset(&sa, 0, sizeof sa); sa.sa_handler = vp::onsig; sa.sa_flags = SA_ONSTACK;
  sigaction(SIGSEGV, &sa, 0); sigaction(SIGBUS, &sa, 0); sigaction(SIGFPE, &sa, 0); sigaction(SIGILL, &sa, 0); sigaction(SIGABRT, &sa, 0); sigaction(SIGALRM, &sa, 0);
#if defined(__SANITIZE_ADDRESS__)
  __sanitizer_set_death_callback(vp::ondeath);
#endif
  timespec t0, t1; clock_gettime(CLOCK_MONOTONIC, &t0);
  uint64_t n = 0;
  for (uint64_t c = one ? only : 0; one ? c == only : c < cases; ++c, ++n) {
    vp::CASE = c; vp::LOGN = 0; alarm(20);
    Rng r(vp::SEED * 1000003ull + c);
    try { run_case(r, c); }
    catch (const std::exception& e) { vp::fail("an exception escapes: %.200s", e.what()); }
    if (!one && (n & 7) == 0) { clock_gettime(CLOCK_MONOTONIC, &t1); if ((t1.tv_sec - t0.tv_sec) + 1e-9 * (t1.tv_nsec - t0.tv_nsec) > secs) { ++n; break; } }
  }
  alarm(0);
  char b[200]; int k = snprintf(b, sizeof b, "\nDONE cases=%llu ops=%llu\n", (unsigned long long)n, (unsigned long long)vp::OPS); vp::wr(b, k);
  _exit(0);
}
#endif
