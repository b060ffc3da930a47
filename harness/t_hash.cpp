#include "common.h"
#include "mathic/HashTable.h"
#include <memory>
struct HK { int a; int junk; };
// equality ignores `junk`; the hash is any function of `a` (many collisions in some modes)
struct HC { typedef HK Key; typedef int Value; int mode; HC(int m): mode(m) {}
  size_t hash(const HK& k) const { ++vp::OPS; uint64_t x = (uint64_t)(int64_t)k.a; switch (mode) { case 0: return x; case 1: return 0; case 2: return x * 0x9E3779B97F4A7C15ull; case 3: return x << 3; case 4: return x & 1 ? ~0ull : 5; case 5: return x >> 2; default: return (x * 2654435761u) >> 7; } }
  bool keysEqual(const HK& x, const HK& y) const { ++vp::OPS; return x.a == y.a; } };
void run_case(Rng& r, uint64_t n) {
  typedef mathic::HashTable<HC> T; typedef T::Handle H; int mode = r.below(7); unsigned bits = r.below(9); if (r.chance(1,5)) bits = 10;
  L("hash mode %d, %u bits\n", mode, bits); std::unique_ptr<T> tp(new T(HC(mode), bits)); T& t = *tp; CHECK(t.configuration().mode == mode, "configuration is not stored");
  struct M { H* h; int v; int junk; }; std::map<int,M> m; int span = r.chance(1,2) ? 8 : r.chance(1,2) ? 60 : 100000; bool removal = r.chance(1,2);
  int steps = n < 30 ? 3 + n : r.chance(1,6) && mode != 1 && mode != 4 ? 1500 : 120;
  for (int s = 0; s < steps; ++s) {
    int k = (r.chance(1,2) ? 1 : -1) * (int)r.below(span); HK key = {k, (int)r.below(3)}; int op = r.below(10);
    if (op < 6) { int v = r.range(-1000, 1000); L("insert %d -> %d\n", k, v); auto p = t.insert(key, v);
      bool had = m.count(k); CHECK(p.first == !had, "insert of %s key %d reports %d", had ? "a present" : "an absent", k, (int)p.first); CHECK(p.second != 0, "insert returns no entry");
      if (had) CHECK(p.second == m[k].h, "insert of the present key %d returns another entry", k); else { for (auto& x : m) CHECK(x.second.h != p.second, "two keys share an entry"); M e = {p.second, v, key.junk}; m[k] = e; }
      CHECK(p.second->key().a == k && p.second->value() == m[k].v, "the entry returned for key %d holds key %d value %d", k, p.second->key().a, p.second->value()); }
    else if (op < 8) { L("lookup %d\n", k); H* h = t.lookup(key); CHECK((h != 0) == (m.count(k) != 0), "lookup of key %d", k); if (h) CHECK(h == m[k].h, "lookup of key %d finds another entry", k); }
    else if (op < 9 && removal && !m.empty()) { auto it = m.begin(); std::advance(it, r.below(m.size())); L("remove %d\n", it->first); H* h = it->second.h; t.remove(h); m.erase(it); }
    else if (!m.empty()) { auto it = m.begin(); std::advance(it, r.below(m.size())); int v = r.range(-1000, 1000); L("set value of %d to %d\n", it->first, v); it->second.h->value() = v; it->second.v = v; }
    if (m.size() < 30 || r.chance(1,40)) {
      for (auto& x : m) { HK q = {x.first, 9}; H* h = t.lookup(q); CHECK(h == x.second.h, "key %d is %s", x.first, h ? "found in another entry" : "not found"); CHECK(h->key().a == x.first && h->key().junk == x.second.junk && h->value() == x.second.v, "the entry of key %d holds key %d value %d", x.first, h->key().a, h->value()); }
      for (int i = 0; i < 10; ++i) { HK q = {r.range(-span-3, span+3), 0}; if (!m.count(q.a)) CHECK(t.lookup(q) == 0, "the absent key %d is found", q.a); }
    }
  }
}
