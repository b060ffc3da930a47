// DivList.  PROP=2: queries (D02); PROP=3: removal and content (D03)
#include "div.h"
#include "mathic/DivList.h"
template<bool LL, bool DM> struct LC : DConfBase { static const bool UseLinkedList = LL; static const bool UseDivMask = DM; };
typedef std::vector<int> V; static V sorted(V v) { std::sort(v.begin(), v.end()); return v; }
template<class C> void history(Rng& r, uint64_t n) {
  typedef mathic::DivList<C> F; C c; Gen g(r); c.vars = g.vars; c.sort = r.chance(1,2); c.cache = false; c.autob = r.chance(1,2); c.ratio = r.chance(1,2) ? 0.5 : 0.1; c.minb = r.below(20);
  L("list: linked %d masks %d sort %d auto rebuild %d (%g, %zu), %d variables\n", (int)C::UseLinkedList, (int)C::UseDivMask, (int)c.sort, (int)c.autob, c.ratio, c.minb, c.vars);
  std::unique_ptr<F> fp(new F(c)); F& f = *fp; std::vector<Ent> m; int id = 0; bool moved = false;
  int steps = n < 30 ? 3 + n : r.chance(1,5) ? 300 : 80; bool big = r.chance(1,3);
  for (int s = 0; s < steps; ++s) { ++vp::OPS;
    int op = r.below(20); if (m.size() < (big ? 50 : 4) && r.chance(1,2)) op = 0;
    if (op < 5) { Ent e(r.chance(1,15) && !m.empty() ? (Mono)m[r.below(m.size())] : g.next(r), id++); L("insert %s\n", str(e)); f.insert(e); m.push_back(e); }
    else if (op == 5) { std::vector<Ent> v; int k = r.chance(1,3) ? r.below(100) : r.below(6); for (int i = 0; i < k; ++i) v.push_back(Ent(g.next(r), id++)); L("insert range:"); for (auto& x : v) L(" %s", str(x)); L("\n"); m.insert(m.end(), v.begin(), v.end()); f.insert(v.begin(), v.end()); }
    else if (op == 6) { L("rebuild\n"); f.rebuild(); }
    else if (op == 7 && !c.sort && !m.empty()) { auto it = f.begin(); size_t k = r.below(m.size()); for (size_t i = 0; i < k; ++i) ++it; int want = (*it).id; L("moveToFront of position %zu\n", k); f.moveToFront(it); CHECK((*f.begin()).id == want, "moveToFront puts another entry in front"); }
#if PROP == 3
    else if (op < 11) { Mono q = r.chance(1,2) && !m.empty() ? (Mono)m[r.below(m.size())] : g.next(r, 1); L("removeMultiples of %s\n", str(q)); V want; std::vector<Ent> rest; for (auto& x : m) if (divs(q, x)) want.push_back(x.id); else rest.push_back(x);
      if (r.chance(1,4)) { bool b = f.removeMultiples(q); CHECK(b == !want.empty(), "removeMultiples returns %d with %zu multiples stored", (int)b, want.size()); }
      else { Out<Ent> o; bool b = f.removeMultiples(q, o); CHECK(b == !want.empty(), "removeMultiples returns %d with %zu multiples stored", (int)b, want.size()); CHECK(sorted(o.ids) == sorted(want), "removeMultiples reports %zu entries, %zu multiples were stored", o.ids.size(), want.size()); for (auto& x : o.ms) CHECK(divs(q, x), "a reported entry is no multiple"); }
      m = rest; }
    else if (op < 14) { Mono q = r.chance(2,3) && !m.empty() ? (Mono)m[r.below(m.size())] : g.next(r); L("removeElement %s\n", str(q)); size_t k = 0; for (auto& x : m) k += eqm(x, q); bool b = f.removeElement(q); CHECK(b == (k > 0), "removeElement returns %d with %zu equal entries stored", (int)b, k);
      if (k) { Out<Ent> o; f.forAll(o); size_t gone = 0, at = 0; for (size_t i = 0; i < m.size(); ++i) if (std::find(o.ids.begin(), o.ids.end(), m[i].id) == o.ids.end()) { ++gone; at = i; } CHECK(gone == 1, "removeElement removes %zu entries", gone); CHECK(eqm(m[at], q), "removeElement removes another entry"); m.erase(m.begin() + at); } }
#endif
    else { Mono q = r.chance(1,3) && !m.empty() ? (Mono)m[r.below(m.size())] : g.next(r); if (r.chance(1,2)) for (int i = 0; i < q.n; ++i) q.e[i] += r.below(4); L("query %s\n", str(q)); V dv, mu; for (auto& x : m) { if (divs(x, q)) dv.push_back(x.id); if (divs(q, x)) mu.push_back(x.id); }
      const F& cf = f; const Ent* d = r.chance(1,2) ? f.findDivisor(q) : cf.findDivisor(q); CHECK((d != 0) == !dv.empty(), "findDivisor returns %s with %zu divisors stored", d ? "an entry" : "none", dv.size()); if (d) { d->live(); CHECK(std::find(dv.begin(), dv.end(), d->id) != dv.end(), "findDivisor returns %s, which is not a stored divisor", str(*d)); }
      auto it = f.findDivisorIterator(q); CHECK((it == f.end()) == dv.empty(), "findDivisorIterator with %zu divisors stored", dv.size()); if (!dv.empty()) CHECK(std::find(dv.begin(), dv.end(), it->id) != dv.end(), "findDivisorIterator finds %s, which is not a stored divisor", str(*it));
      { Out<Ent> o; if (r.chance(1,2)) f.findAllDivisors(q, o); else cf.findAllDivisors(q, o); CHECK(sorted(o.ids) == sorted(dv), "findAllDivisors reports %zu entries, %zu divisors are stored", o.ids.size(), dv.size()); }
      { Out<Ent> o; if (r.chance(1,2)) f.findAllMultiples(q, o); else cf.findAllMultiples(q, o); CHECK(sorted(o.ids) == sorted(mu), "findAllMultiples reports %zu entries, %zu multiples are stored", o.ids.size(), mu.size()); }
      if (dv.size()) { Out<Ent> o; o.stop = 1 + r.below(dv.size()); f.findAllDivisors(q, o); CHECK(o.ids.size() == o.stop, "findAllDivisors stops early"); }
      if (mu.size()) { Out<Ent> o; o.stop = 1 + r.below(mu.size()); f.findAllMultiples(q, o); CHECK(o.ids.size() == o.stop, "findAllMultiples stops early"); } }
    CHECK(f.size() == m.size() && f.empty() == m.empty(), "size() is %zu, %zu entries are stored", (size_t)f.size(), m.size());
    if (m.size() < 40 || r.chance(1,10)) { V want; for (auto& x : m) want.push_back(x.id); Out<Ent> o; const F& cf = f; if (r.chance(1,2)) f.forAll(o); else cf.forAll(o); CHECK(sorted(o.ids) == sorted(want), "the entries kept are not the ones inserted and not removed"); std::map<int,const Ent*> by; for (auto& x : m) by[x.id] = &x; for (size_t i = 0; i < o.ids.size(); ++i) CHECK(eqm(o.ms[i], *by[o.ids[i]]), "an entry is changed");
      V k; for (auto it = f.begin(); it != f.end(); ++it) k.push_back(it->id); CHECK(k == o.ids, "iteration and traversal differ");
      if (m.size()) { Out<Ent> p; p.stop = 1 + r.below(m.size()); f.forAll(p); CHECK(p.ids.size() == p.stop, "the traversal does not stop as told"); }
      if (c.sort) for (size_t i = 1; i < o.ms.size(); ++i) CHECK(!c.isLessThan(o.ms[i], o.ms[i-1]), "the sorted list is out of order"); }
  }
}
void run_case(Rng& r, uint64_t n) { switch (r.below(4)) { case 0: history<LC<false,false> >(r, n); break; case 1: history<LC<false,true> >(r, n); break; case 2: history<LC<true,false> >(r, n); break; default: history<LC<true,true> >(r, n); } }
