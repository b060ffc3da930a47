// KDTree.  PROP=4: divisor queries (D04); 5: multiples and removal (D05); 6: content (D06)
#include "div.h"
#include "mathic/KDTree.h"
template<bool P, bool DM, bool TM, int LS, bool AR> struct KC : DConfBase { static const bool PackedTree = P, UseDivMask = DM, UseTreeDivMask = TM, AllowRemovals = AR; static const size_t LeafSize = LS; size_t getLeafSize() const { return LS; } };
typedef std::vector<int> V; static V sorted(V v) { std::sort(v.begin(), v.end()); return v; }
template<class F> void rmAll(F& f, const Mono& q, Out<Ent>* o, bool& res) { res = o ? f.removeMultiples(q, *o) : f.removeMultiples(q); }
template<class C, bool AR> struct Rm { template<class F> static void el(F& f, const Mono& q, bool& b) { b = f.removeElement(q); } template<class F> static void mu(F& f, const Mono& q, Out<Ent>* o, bool& b) { b = o ? f.removeMultiples(q, *o) : f.removeMultiples(q); } };
template<class C> struct Rm<C,false> { template<class F> static void el(F&, const Mono&, bool&) {} template<class F> static void mu(F&, const Mono&, Out<Ent>*, bool&) {} };
template<class C> void history(Rng& r, uint64_t n) {
  typedef mathic::KDTree<C> F; C c; Gen g(r); c.vars = g.vars; c.sort = r.chance(1,2); c.cache = r.chance(1,2); c.autob = r.chance(1,2); c.ratio = r.chance(1,2) ? 0.5 : 0.1; c.minb = r.chance(1,2) ? r.below(20) : 50 + r.below(200);
  L("tree: packed %d masks %d tree masks %d leaf size %d removals %d sort %d cache %d auto rebuild %d (%g, %zu), %d variables\n", (int)C::PackedTree, (int)C::UseDivMask, (int)C::UseTreeDivMask, (int)C::LeafSize, (int)C::AllowRemovals, (int)c.sort, (int)c.cache, (int)c.autob, c.ratio, c.minb, c.vars);
  std::unique_ptr<F> fp(new F(c)); F& f = *fp; std::vector<Ent> m; int id = 0; size_t LSz = C::LeafSize;
  int steps = n < 30 ? 3 + n : r.chance(1,5) ? 400 : 100; bool big = r.chance(1,3); int dupRate = r.chance(1,4) ? 15 : 1000;
  auto copies = [&](const Mono& x) { size_t k = 0; for (auto& y : m) k += eqm(x, y); return k; };
  for (int s = 0; s < steps; ++s) { ++vp::OPS;
    int op = r.below(20); if (m.size() < (size_t)(big ? 60 : 4) && r.chance(1,2)) op = 0;
    if (op < 5) { Ent e(r.chance(1,dupRate) && !m.empty() ? (Mono)m[r.below(m.size())] : g.next(r), id++);
      if (dupRate == 1000 && copies(e) >= (LSz > 1 && g.span <= 6 ? LSz : 1)) continue;
      L("insert %s\n", str(e)); try { f.insert(e); } catch (const std::logic_error& x) { CHECK(copies(e) >= LSz, "insertion is rejected as duplicate with %zu copies stored and leaves of %zu", copies(e), LSz); return; } m.push_back(e); }
    else if (op == 5 && r.chance(1,2)) { std::vector<Ent> v; int k = r.chance(1,3) ? r.below(100) : r.below(6); for (int i = 0; i < k; ++i) { Ent e(g.next(r), id); bool dup = copies(e) > 0; for (auto& x : v) dup = dup || eqm(x, e); if (!dup) { v.push_back(e); id++; } } L("insert range:"); for (auto& x : v) L(" %s", str(x)); L("\n"); m.insert(m.end(), v.begin(), v.end()); f.insert(v.begin(), v.end()); }
    else if (op == 6 && r.chance(1,2)) { L("rebuild\n"); f.rebuild(); }
    else if (op == 7 && r.chance(1,6)) { L("clear\n"); f.clear(); m.clear(); }
    else if (op < 11 && C::AllowRemovals && (PROP == 5 || r.chance(1,4))) { Mono q = r.chance(1,2) && !m.empty() ? (Mono)m[r.below(m.size())] : g.next(r, 1); L("removeMultiples of %s\n", str(q)); V want; std::vector<Ent> rest; for (auto& x : m) if (divs(q, x)) want.push_back(x.id); else rest.push_back(x);
      bool b = false; Out<Ent> o; bool useOut = r.chance(3,4); Rm<C,C::AllowRemovals>::mu(f, q, useOut ? &o : 0, b); CHECK(b == !want.empty(), "removeMultiples returns %d with %zu multiples stored", (int)b, want.size());
      if (useOut) { CHECK(sorted(o.ids) == sorted(want), "removeMultiples reports %zu entries, %zu multiples were stored", o.ids.size(), want.size()); for (auto& x : o.ms) CHECK(divs(q, x), "a reported entry is no multiple"); } m = rest; }
    else if (op < 14 && C::AllowRemovals && (PROP == 5 || r.chance(1,3))) { Mono q = r.chance(2,3) && !m.empty() ? (Mono)m[r.below(m.size())] : g.next(r); L("removeElement %s\n", str(q)); size_t k = copies(q); bool b = false; Rm<C,C::AllowRemovals>::el(f, q, b); CHECK(b == (k > 0), "removeElement returns %d with %zu equal entries stored", (int)b, k);
      if (k) { Out<Ent> o; f.forAll(o); size_t gone = 0, at = 0; for (size_t i = 0; i < m.size(); ++i) if (std::find(o.ids.begin(), o.ids.end(), m[i].id) == o.ids.end()) { ++gone; at = i; } CHECK(gone == 1, "removeElement removes %zu entries", gone); CHECK(eqm(m[at], q), "removeElement removes another entry"); m.erase(m.begin() + at); } }
    else { Mono q = r.chance(1,3) && !m.empty() ? (Mono)m[r.below(m.size())] : g.next(r); if (r.chance(1,2)) for (int i = 0; i < q.n; ++i) q.e[i] += r.below(4); L("query %s\n", str(q)); V dv, mu; for (auto& x : m) { if (divs(x, q)) dv.push_back(x.id); if (divs(q, x)) mu.push_back(x.id); } const F& cf = f;
#if PROP != 6
      const Ent* d = r.chance(1,2) ? f.findDivisor(q) : cf.findDivisor(q); CHECK((d != 0) == !dv.empty(), "findDivisor returns %s with %zu divisors stored", d ? "an entry" : "none", dv.size()); if (d) { d->live(); CHECK(std::find(dv.begin(), dv.end(), d->id) != dv.end(), "findDivisor returns %s, which is not a stored divisor", str(*d)); }
#endif
#if PROP == 4
      { Out<Ent> o; if (r.chance(1,2)) f.findAllDivisors(q, o); else cf.findAllDivisors(q, o); CHECK(sorted(o.ids) == sorted(dv), "findAllDivisors reports %zu entries, %zu divisors are stored", o.ids.size(), dv.size()); }
      if (dv.size()) { Out<Ent> o; o.stop = 1 + r.below(dv.size()); f.findAllDivisors(q, o); CHECK(o.ids.size() == o.stop, "findAllDivisors stops early"); }
#endif
#if PROP == 5
      { Out<Ent> o; if (r.chance(1,2)) f.findAllMultiples(q, o); else cf.findAllMultiples(q, o); CHECK(sorted(o.ids) == sorted(mu), "findAllMultiples reports %zu entries, %zu multiples are stored", o.ids.size(), mu.size()); }
      if (mu.size()) { Out<Ent> o; o.stop = 1 + r.below(mu.size()); f.findAllMultiples(q, o); CHECK(o.ids.size() == o.stop, "findAllMultiples stops early"); }
#endif
    }
#if PROP != 4
    CHECK(f.size() == m.size() && f.empty() == m.empty(), "size() is %zu, %zu entries are stored", (size_t)f.size(), m.size());
    if (m.size() < 40 || r.chance(1,10)) { V want; for (auto& x : m) want.push_back(x.id); Out<Ent> o; const F& cf = f; if (r.chance(1,2)) f.forAll(o); else cf.forAll(o); CHECK(sorted(o.ids) == sorted(want), "the traversal gives %zu entries; the entries inserted and not removed are %zu", o.ids.size(), want.size()); std::map<int,const Ent*> by; for (auto& x : m) by[x.id] = &x; for (size_t i = 0; i < o.ids.size(); ++i) CHECK(eqm(o.ms[i], *by[o.ids[i]]), "an entry is changed");
      if (m.size()) { Out<Ent> p; p.stop = 1 + r.below(m.size()); f.forAll(p); CHECK(p.ids.size() == p.stop, "the traversal does not stop as told"); } }
#endif
  }
}
#ifndef PK
#define PK 1
#endif
void run_case(Rng& r, uint64_t n) { switch (r.below(8)) {
  case 0: history<KC<PK,true,true,1,true> >(r, n); break; case 1: history<KC<PK,true,true,3,true> >(r, n); break; case 2: history<KC<PK,true,false,2,true> >(r, n); break; case 3: history<KC<PK,false,false,2,true> >(r, n); break;
  case 4: history<KC<PK,true,true,8,true> >(r, n); break; case 5: history<KC<PK,false,false,1,true> >(r, n); break; case 6: history<KC<PK,true,true,2,false> >(r, n); break; default: history<KC<PK,true,false,5,true> >(r, n); } }
