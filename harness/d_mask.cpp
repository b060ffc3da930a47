#include "common.h"
#include "mathic/DivMask.h"
#include <limits>
template<class E> struct MC { typedef E Exponent; static const bool UseDivMask = true; size_t n; MC(size_t k): n(k) {}
  size_t getVarCount() const { return n; }
  template<class M> E getExponent(const M& m, size_t v) const { ++vp::OPS; CHECK(v < n, "the exponent of variable %zu of %zu is read", v, n); return m[v]; }
  template<class A, class B> bool divides(const A& a, const B& b) const { for (size_t i = 0; i < n; ++i) if (a[i] > b[i]) return false; return true; } };
template<class E> static std::string s(const std::vector<E>& m) { std::ostringstream o; for (size_t i = 0; i < m.size(); ++i) o << (i ? "," : "") << +m[i]; return o.str(); }
template<class E> static void go(Rng& r, uint64_t n) {
  size_t vars = n < 8 ? n : r.chance(1,4) ? 30 + r.below(80) : r.chance(1,2) ? 1 + r.below(4) : r.below(34);
  MC<E> c(vars); typedef std::vector<E> M; const bool neg = std::numeric_limits<E>::is_signed && r.chance(1,4);
  int mode = r.below(4);
  auto val = [&]() -> E { long long x = mode == 0 ? r.below(4) : mode == 1 ? r.below(100) : mode == 2 ? (r.chance(1,2) ? r.below(3) : (long long)(r.next() >> 34)) : (long long)(std::numeric_limits<E>::max() / 2) - (long long)r.below(50); if (neg && r.chance(1,2)) x = -(x / 2); return (E)x; };
  auto mono = [&]() { M m(vars); for (auto& x : m) x = val(); return m; };
  std::vector<M> es; size_t k = r.chance(1,8) ? 0 : 1 + r.below(r.chance(1,4) ? 40 : 6); for (size_t i = 0; i < k; ++i) es.push_back(mono());
  mathic::DivMask::Calculator<MC<E> > calc(c); int how = r.below(4); L("%zu variables, mode %d, calculator %d over:\n", vars, mode, how);
  if (how == 1) calc.rebuildDefault(c); else if (how >= 2) { for (auto& x : es) L(" %s\n", s(x).c_str()); calc.rebuild(es.begin(), es.end(), c); if (how == 3 && k > 1) calc.rebuild(es.begin() + 1, es.end(), c); }
  typedef mathic::DivMask::Extender<M, true> X; typedef mathic::DivMask::HasDivMask<true> H;
  for (int t = 0; t < 12; ++t) { M b = r.chance(1,2) && k ? es[r.below(k)] : mono(); M a = b, a2 = b;
    for (size_t i = 0; i < vars; ++i) { if (r.chance(1,3)) a[i] = std::min(b[i], val()); else if (r.chance(1,6) && b[i] > 0) a[i] = b[i] - 1; if (r.chance(1,3)) a2[i] = std::min(b[i], val()); }
    if (r.chance(1,4) && vars) a[r.below(vars)] = val();
    X xa(a, calc, c), xa2(a2, calc, c), xb(b, calc, c); bool d = c.divides(a, b);
    L("a = %s b = %s\n", s(a).c_str(), s(b).c_str());
    if (d) { CHECK(xa.canDivide(xb) && xa.getDivMask().canDivide(xb.getDivMask()), "the mask of a rules out that it divides b"); }
    CHECK(xa.divides(xb, c) == d, "the masked test of a | b says %d, the direct test %d", (int)!d, (int)d);
    CHECK(xa.get() == a && xb.get() == b, "the extended object is not the one it was made from");
    mathic::DivMask m1(a, calc, c), m2(b, calc, c); CHECK(!d || m1.canDivide(m2), "the mask of a rules out that it divides b");
    X y; y.get() = a; y.recalculateDivMask(calc, c); CHECK(!d || y.canDivide(xb), "the recalculated mask of a rules out that it divides b");
    H h; L("intersect masks\n"); CHECK(!h.canDivide(H()) == false, "a full mask rules itself out");
    // an intersection of masks of several objects admits everything one of them admits
    bool first = r.chance(1,2); if (first) { h.updateToLowerBound(xa); h.updateToLowerBound(xa2); } else { h.updateToLowerBound(xa2); h.updateToLowerBound(xa); }
    if (d) CHECK(h.canDivide(xb), "the intersection of masks rules out a multiple of one of the objects");
    H g = h; g.resetDivMask(); g.updateToLowerBound(xa); g.updateToLowerBound(h); if (c.divides(a2, b)) CHECK(g.canDivide(xb), "the intersection of masks rules out a multiple of one of the objects");
  }
}
void run_case(Rng& r, uint64_t n) { switch (r.below(4)) { case 0: go<int>(r, n); break; case 1: go<unsigned>(r, n); break; case 2: go<long>(r, n); break; default: go<short>(r, n); } }
