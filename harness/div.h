#ifndef VP_DIV_H
#define VP_DIV_H
#include "common.h"
#include <memory>
#include <stdexcept>
const int MAXV = 6;
struct Mono { int e[MAXV]; int n; };
struct Ent : Mono { int id; long self; Ent(): id(-1), self(0) { n = 0; } Ent(const Mono& m, int i): Mono(m), id(i), self(4242) {} Ent(const Ent& x): Mono(x), id(x.id), self(x.self) {} Ent& operator=(const Ent& x) { *(Mono*)this = x; id = x.id; self = x.self; return *this; } ~Ent() { self = 13; } void live() const { CHECK(self == 4242, "an entry is read that is not alive"); } };
inline void lv(const Mono&) {} inline void lv(const Ent& e) { e.live(); }
inline bool divs(const Mono& a, const Mono& b) { for (int i = 0; i < a.n; ++i) if (a.e[i] > b.e[i]) return false; return true; }
inline bool eqm(const Mono& a, const Mono& b) { for (int i = 0; i < a.n; ++i) if (a.e[i] != b.e[i]) return false; return true; }
inline const char* str(const Mono& m) { static char b[8][200]; static int k = 0; char* s = b[k = (k + 1) % 8]; int p = 0; for (int i = 0; i < m.n; ++i) p += snprintf(s + p, 190 - p, i ? ",%d" : "%d", m.e[i]); return s; }
inline std::ostream& operator<<(std::ostream& o, const Mono& m) { return o << str(m); }
struct DConfBase {
  typedef int Exponent; typedef Mono Monomial; typedef Ent Entry;
  int vars; bool sort, cache, autob; double ratio; size_t minb;
  size_t getVarCount() const { return vars; } bool getSortOnInsert() const { return sort; } bool getUseDivisorCache() const { return cache; }
  bool getDoAutomaticRebuilds() const { return autob; } double getRebuildRatio() const { return ratio; } size_t getRebuildMin() const { return minb; }
  template<class M> int getExponent(const M& m, size_t v) const { ++vp::OPS; lv(m); CHECK(v < (size_t)vars && m.n == vars, "the exponent of variable %zu of %d is read", v, vars); return m.e[v]; }
  template<class A, class B> bool divides(const A& a, const B& b) const { ++vp::OPS; lv(a); lv(b); return divs(a, b); }
  template<class A, class B> bool isLessThan(const A& a, const B& b) const { ++vp::OPS; lv(a); lv(b); for (int i = 0; i < vars; ++i) if (a.e[i] != b.e[i]) return a.e[i] < b.e[i]; return false; }
};
struct Gen { int vars, mode, span;
  Gen(Rng& r) { vars = r.chance(1,8) ? 1 : r.chance(1,4) ? MAXV : 2 + r.below(3); mode = r.below(4); span = r.chance(1,3) ? 2 + r.below(4) : r.chance(1,2) ? 12 : 1000; }
  Mono next(Rng& r, int boost = 0) { Mono m; m.n = vars; for (int i = 0; i < MAXV; ++i) m.e[i] = 0; for (int i = 0; i < vars; ++i) m.e[i] = mode == 1 && i > 0 ? (int)r.below(2) : mode == 2 && r.chance(1,2) ? 0 : mode == 3 && r.chance(1,8) ? 1000000000 + (int)r.below(1000000000) : (int)r.below(span); if (boost) for (int i = 0; i < vars; ++i) m.e[i] = m.e[i] / 2 + (int)r.below(span) * (r.chance(1,2) ? 1 : 0); return m; } };
template<class E> struct Out { std::vector<int> ids; size_t stop; std::vector<Mono> ms; Out(): stop(~(size_t)0) {} 
  bool proceed(const Ent& e) { e.live(); CHECK(ids.size() < stop, "the search goes on after it was told to stop"); ids.push_back(e.id); ms.push_back(e); return ids.size() < stop; } void push_back(Ent& e) { e.live(); ids.push_back(e.id); ms.push_back(e); } };
#endif
