#include "common.h"
#include "mathic/ColumnPrinter.h"
#include <cmath>
typedef mathic::ColumnPrinter P; typedef long double LD;
// the text must be the value rounded to one decimal; at a tie (within tol) either neighbour will do
static bool dec(const std::string& s, LD v, LD tol, bool up = false) { if (v < 0) return true; size_t d = s.find('.'); if (d == std::string::npos || d == 0 || d + 2 != s.size() || (s[0] == '0' && d > 1)) return false; LD x = 0; for (size_t i = 0; i < s.size(); ++i) { if (i == d) continue; if (s[i] < '0' || s[i] > '9') return false; x = x * 10 + (s[i] - '0'); } return std::fabs((double)(x - v * 10)) <= 0.5L + tol; }
static uint64_t num(Rng& r) { switch (r.below(6)) { case 0: return r.below(20); case 1: return r.below(2000); case 2: return r.next() >> r.below(64); case 3: { uint64_t p = 1; for (int i = r.below(20); i > 0; --i) p *= 10; return p + r.range(-3, 3); } case 4: { uint64_t p = 1ull << r.below(64); return p + r.range(-3, 3); } default: { static const LD b[] = {999.95L, 1023.95L, 1023.9L, 999.9L, 1000, 1024}; LD x = b[r.below(6)]; for (int i = 1 + r.below(5); i > 0; --i) x *= r.chance(1,2) ? 1000 : 1024; return x < 1.8e19L ? (uint64_t)x + r.range(-60, 60) : ~0ull - r.below(99); } } }
static LD tolof(LD v) { LD a = v * 10; return a * 1e-15L + 1e-9L; }
static void units(const char* what, const std::string& s, uint64_t n, LD base, const char* const* u) {
  if (n < (uint64_t)base) { CHECK(s == std::to_string(n) + u[0], "%s(%llu) is \"%s\"", what, (unsigned long long)n, s.c_str()); return; }
  LD lim = base == 1000 ? 999.95L : 1023.95L; bool ok = false; LD v = n / base; int i = 1;
  // walk to the unit in which the rounded value is below the base; near the limit both units are fine
  for (;;) { bool last = i == 4; std::string suf = u[i]; bool here = s.size() > suf.size() && s.compare(s.size() - suf.size(), suf.size(), suf) == 0 && dec(s.substr(0, s.size() - suf.size()), v, tolof(v)); LD t = lim * 1e-14L;
    if (last || v < lim + t) { if (here) ok = true; } if (last || v < lim - t) break; v /= base; ++i; }
  CHECK(ok, "%s(%llu) is \"%s\"", what, (unsigned long long)n, s.c_str());
}
void run_case(Rng& r, uint64_t) {
  for (int q = 0; q < 60; ++q) { ++vp::OPS; uint64_t n = num(r), d = r.chance(1,12) ? 0 : num(r);
    L("n=%llu d=%llu\n", (unsigned long long)n, (unsigned long long)d);
    std::string s = P::commafy(n), e = std::to_string(n); for (int i = (int)e.size() - 3; i > 0; i -= 3) e.insert(i, ","); CHECK(s == e, "commafy(%llu) is \"%s\"", (unsigned long long)n, s.c_str());
    static const char* const SI[] = {"", "k", "M", "G", "T"}; static const char* const BY[] = {"B", "kB", "MB", "GB", "TB"};
    units("withSIPrefix", P::withSIPrefix(n), n, 1000, SI); units("bytesInUnit", P::bytesInUnit(n), n, 1024, BY);
    std::string ri = P::ratioInteger(n, d), pi = P::percentInteger(n, d), pf = P::percentIntegerFixed(n, d);
    if (d == 0) { std::string z = n == 0 ? "0/0" : "?/0"; CHECK(ri == z, "ratioInteger(%llu,0) is \"%s\"", (unsigned long long)n, ri.c_str()); CHECK(pi == z + "%", "percentInteger(%llu,0) is \"%s\"", (unsigned long long)n, pi.c_str());
      CHECK(P::ratioDouble(n, 0) == z && P::percentDouble(n, 0) == z + "%", "a ratio of doubles with denominator zero"); }
    else { LD v = (LD)n / d; 
      if (v < 1e18L) CHECK(dec(ri, v, tolof(v)), "ratioInteger(%llu,%llu) is \"%s\"", (unsigned long long)n, (unsigned long long)d, ri.c_str());
      if (v < 1e16L) CHECK(pi.size() && pi.back() == '%' && dec(pi.substr(0, pi.size() - 1), v * 100, tolof(v * 100)), "percentInteger(%llu,%llu) is \"%s\"", (unsigned long long)n, (unsigned long long)d, pi.c_str());
      double a = r.chance(1,2) ? (double)n : n / 1024.0, b = r.chance(1,2) ? (double)d : d / 4096.0; LD w = (LD)a / b; std::string rd = P::ratioDouble(a, b), pd = P::percentDouble(a, b), od = P::oneDecimal(a), p1 = P::percentDouble(a / b);
      if (w < 1e15L) { CHECK(dec(rd, w, tolof(w)), "ratioDouble(%.17g,%.17g) is \"%s\"", a, b, rd.c_str()); CHECK(pd.size() && pd.back() == '%' && dec(pd.substr(0, pd.size() - 1), w * 100, tolof(w * 100)), "percentDouble(%.17g,%.17g) is \"%s\"", a, b, pd.c_str());
        CHECK(p1.size() && p1.back() == '%' && dec(p1.substr(0, p1.size() - 1), w * 100, tolof(w * 100)), "percentDouble(%.17g) is \"%s\"", a / b, p1.c_str()); }
      if (a < 1e17) CHECK(dec(od, a, tolof(a)), "oneDecimal(%.17g) is \"%s\"", a, od.c_str()); }
    CHECK(pf == (pi.size() < 6 ? std::string(6 - pi.size(), ' ') + pi : pi), "percentIntegerFixed(%llu,%llu) is \"%s\"", (unsigned long long)n, (unsigned long long)d, pf.c_str());
    // exactly representable ties round up
    double t = (double)r.below(1000000) + (r.chance(1,2) ? 0.25 : 0.75); char buf[64]; snprintf(buf, 64, "%.0f.%d", std::floor(t), t - std::floor(t) < 0.5 ? 3 : 8); CHECK(P::oneDecimal(t) == buf, "oneDecimal(%.17g) is \"%s\" instead of \"%s\"", t, P::oneDecimal(t).c_str(), buf);
  }
}
