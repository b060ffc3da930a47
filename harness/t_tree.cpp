#include "common.h"
#include "mathic/ComTree.h"
#include <memory>
#include <limits>
struct P3 { int a, b, c; }; struct P16 { long a, b; };
static int val(int x) { return x; } static int val(const P3& p) { CHECK(p.b == p.a * 3 + 1 && p.c == ~p.a, "an entry is mixed up"); return p.a; } static int val(const P16& p) { CHECK(p.b == p.a + 7, "an entry is mixed up"); return (int)p.a; }
static void setv(int& x, int v) { x = v; } static void setv(P3& p, int v) { p.a = v; p.b = v * 3 + 1; p.c = ~v; } static void setv(P16& p, int v) { p.a = v; p.b = v + 7; }
template<class E, bool FI> struct W {
  typedef mathic::ComTree<E, FI> T; typedef typename T::Node N;
  static N at(size_t k) { N n; return n.next(k - 1); } // the k-th node, k >= 1
  static void nodes(Rng& r) {
    L("node algebra, entry size %zu fastIndex %d\n", sizeof(E), (int)FI);
    for (int t = 0; t < 60; ++t) {
      ++vp::OPS; size_t k = 1 + (r.chance(1,2) ? r.below(200) : r.chance(1,2) ? r.below(1 << 20) : r.below((size_t)1 << 40)); N n = at(k);
      L("node %zu\n", k);
      CHECK(n.isRoot() == (k == 1), "isRoot of node %zu", k);
      CHECK(n.left() == at(2*k), "left child of node %zu", k); CHECK(n.right() == at(2*k+1), "right child of node %zu", k);
      CHECK(n.left().parent() == n && n.right().parent() == n, "parent of the children of node %zu", k);
      CHECK(n.left().sibling() == n.right() && n.right().sibling() == n.left(), "siblings below node %zu", k);
      CHECK(n.left().next() == n.right() && n.right().prev() == n.left(), "next/prev below node %zu", k);
      CHECK(n.left().leftSibling() == n.left() && n.right().leftSibling() == n.left(), "left sibling below node %zu", k);
      CHECK((bool)n.left().isLeft() && !n.left().isRight() && (bool)n.right().isRight() && !n.right().isLeft(), "side of the children of node %zu", k);
      CHECK(n.next().prev() == n, "next and prev of node %zu", k); N m = n; ++m; CHECK(m == n.next(), "increment of node %zu", k); CHECK(n < m && n <= m && m > n && m >= n && n != m && !(n == m) && n <= n && n >= n && !(n < n), "comparison of node %zu", k);
      size_t j = r.below(50); N q = n; for (size_t i = 0; i < j; ++i) q = q.next(); CHECK(q == n.next(j), "next(%zu) of node %zu", j, k);
      if (k > 1) { CHECK(n.parent() == at(k/2), "parent of node %zu", k); CHECK(n.sibling().sibling() == n && n.sibling() != n && n.sibling().parent() == n.parent(), "sibling of node %zu", k); CHECK(n.prev() == at(k-1), "prev of node %zu", k); }
    }
  }
  static void same(T& t, const std::vector<int>& m, const char* what) {
    CHECK(t.size() == m.size() && t.empty() == m.empty(), "%s: size is %zu instead of %zu", what, t.size(), m.size()); CHECK(t.capacity() >= m.size(), "%s: capacity below size", what);
    if (!m.empty()) CHECK(t.lastLeaf() == at(m.size()), "%s: last leaf", what);
    const T& c = t; std::set<const void*> seen;
    for (size_t i = 0; i < m.size(); ++i) { int v = val(c[at(i+1)]); CHECK(v == m[i], "%s: entry %zu is %d instead of %d", what, i + 1, v, m[i]); CHECK(&c[at(i+1)] == &t[at(i+1)], "%s: const access", what); CHECK(seen.insert(&c[at(i+1)]).second, "%s: two nodes share an entry", what); }
    for (size_t x = 0; x < 4; ++x) { size_t e = (t.capacity() - t.size()) + x; if (e >= 2) CHECK(t.hasFreeCapacity(e - 2) == (t.capacity() - t.size() >= e - 2), "%s: hasFreeCapacity(%zu)", what, e - 2); }
  }
  static void run(Rng& r, uint64_t number) {
    nodes(r); L("tree history\n");
    std::vector<std::unique_ptr<T> > t; std::vector<std::vector<int> > m; size_t c0 = r.chance(1,2) ? 0 : r.below(40); L("new tree, capacity %zu\n", c0); t.emplace_back(new T(c0)); m.emplace_back(); int ctr = 0;
    int steps = number < 30 ? 2 + number : 60;
    for (int s = 0; s < steps; ++s) { ++vp::OPS;
      size_t i = r.below(t.size()), j = r.below(t.size());
      switch (r.below(13)) {
        case 0: case 1: case 2: case 3: { int n = 1 + r.below(r.chance(1,8) ? 60 : 6); L("%zu: pushBack %d times\n", i, n); while (n--) { E e; setv(e, ++ctr); t[i]->pushBack(e); m[i].push_back(ctr); } break; }
        case 4: if (!m[i].empty()) { L("%zu: popBack\n", i); t[i]->popBack(); m[i].pop_back(); } break;
        case 5: if (t.size() < 6) { L("copy %zu\n", i); t.emplace_back(new T(*t[i])); m.push_back(m[i]); } break;
        case 6: if (t.size() < 6) { size_t c = r.below(100); L("copy %zu with capacity %zu\n", i, c); t.emplace_back(new T(*t[i], c)); m.push_back(m[i]); CHECK(t.back()->capacity() >= c, "copy with too little capacity"); } break;
        case 7: if (t.size() < 6) { L("move %zu\n", i); t.emplace_back(new T(std::move(*t[i]))); m.push_back(m[i]); m[i].clear(); } break;
        case 8: L("swap %zu %zu\n", i, j); t[i]->swap(*t[j]); std::swap(m[i], m[j]); break;
        case 9: L("%zu: clear\n", i); t[i]->clear(); m[i].clear(); break;
        case 10: if (m[i].size() < 300) { size_t c = t[i]->capacity(); L("%zu: increaseCapacity\n", i); t[i]->increaseCapacity(); CHECK(t[i]->capacity() > c, "capacity does not grow"); } break;
        case 11: if (!m[i].empty()) { size_t k = r.below(m[i].size()); ++ctr; L("%zu: write entry %zu\n", i, k + 1); setv((*t[i])[at(k+1)], ctr); m[i][k] = ctr; } break;
        case 12: { if (t[i]->hasFreeCapacity(1)) { E e; setv(e, ++ctr); L("%zu: pushBackWithCapacity\n", i); t[i]->pushBackWithCapacity(e); m[i].push_back(ctr); } break; }
      }
      for (size_t k = 0; k < t.size(); ++k) same(*t[k], m[k], "after the last step");
    }
  }
};
void run_case(Rng& r, uint64_t n) {
  switch (r.below(5)) { case 0: W<int,false>::run(r, n); break; case 1: W<int,true>::run(r, n); break; case 2: W<P3,false>::run(r, n); break; case 3: W<P16,true>::run(r, n); break; default: W<P16,false>::run(r, n); }
}
