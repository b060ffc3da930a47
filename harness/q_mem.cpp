// Memory behaviour of the queues and the tree storage: every entry read is a live, assigned
// object, and all memory is released.  (Reads and writes outside storage: address sanitizer.)
#include "common.h"
#include <memory>
static long LIVE = 0;
void* operator new(size_t n) { void* p = malloc(n ? n : 1); if (!p) abort(); ++LIVE; return p; }
void* operator new[](size_t n) { void* p = malloc(n ? n : 1); if (!p) abort(); ++LIVE; return p; }
void operator delete(void* p) noexcept { if (p) { --LIVE; free(p); } }
void operator delete[](void* p) noexcept { if (p) { --LIVE; free(p); } }
void operator delete(void* p, size_t) noexcept { if (p) { --LIVE; free(p); } }
void operator delete[](void* p, size_t) noexcept { if (p) { --LIVE; free(p); } }
static long OBJ = 0;
// owns memory; reading the key of an object that was not assigned a key is an error
struct Tr {
  int* p; long self;
  Tr(): p(0), self(42) { ++OBJ; } Tr(int k): p(new int(k)), self(42) { ++OBJ; }
  Tr(const Tr& t): p(t.p ? new int(*t.live()) : 0), self(42) { ++OBJ; }
  Tr& operator=(const Tr& t) { t.live0(); live0(); if (this != &t) { delete p; p = t.p ? new int(*t.p) : 0; } return *this; }
  ~Tr() { live0(); delete p; p = 0; self = 7; --OBJ; }
  void live0() const { CHECK(self == 42, "an object is used that is not alive"); }
  const int* live() const { live0(); return p; }
  int key() const { live0(); CHECK(p != 0, "an entry slot is read that holds no entry"); return *p; }
};
inline std::ostream& operator<<(std::ostream& o, const Tr& e) { return o << e.key(); }
template<bool FI, bool D> struct TConf {
  typedef Tr Entry; typedef int CompareResult; static const bool fastIndex = FI; static const bool supportDeduplication = D;
  CompareResult compare(const Entry& a, const Entry& b) const { ++vp::OPS; int x = a.key(), y = b.key(); return x < y ? -1 : x > y; }
  bool cmpLessThan(CompareResult r) const { return r < 0; } bool cmpEqual(CompareResult r) const { return r == 0; }
  Entry deduplicate(const Entry& a, const Entry& b) const { a.key(); b.key(); return a; }
};
#include "mathic/Heap.h"
#include "mathic/TourTree.h"
#include "mathic/Geobucket.h"
#include "mathic/StlSet.h"
template<int F, bool D> struct GConf : TConf<false, D> {
  GConf(): minBucketSize(1), geoBase(2) {}
  size_t minBucketSize, geoBase; static const size_t insertFactor = 1 + F % 3;
  static const bool minBucketBinarySearch = F & 1, trackFront = (F >> 1) & 1, premerge = (F >> 2) & 1, collectMax = (F >> 3) & 1;
  static const mathic::GeobucketBucketStorage bucketStorage = (mathic::GeobucketBucketStorage)(F >> 4);
};
template<class Q> struct Sorted { static const int value = 0; }; template<class C> struct Sorted<mathic::Geobucket<C> > { static const int value = C::supportDeduplication ? 2 : 1; };
struct Touch { size_t n; Touch(): n(0) {} bool proceed(const Tr& e) { e.key(); ++n; return true; } };
template<class Q> auto touch(Q& q, int) -> decltype(q.forAll(*(Touch*)0), void()) { Touch t; q.forAll(t); } template<class Q> void touch(Q&, long) {}
template<class Q> auto doClear(Q& q, int) -> decltype(q.clear(), void()) { q.clear(); } template<class Q> void doClear(Q&, long) {}
template<class Q> auto doDec(Q& q, int k, int) -> decltype(q.decreaseTop(Tr(k)), void()) { q.decreaseTop(Tr(k)); } template<class Q> void doDec(Q&, int, long) {}
template<class Q, class C> void queue(Rng& r, uint64_t number, C conf, const char* name) {
  L("%s\n", name);
  { Q q(conf); int steps = number < 30 ? 2 + number : r.chance(1,8) ? 600 : 80, grow = r.range(40, 90), span = 1 + r.below(50);
    for (int s = 0; s < steps; ++s) {
      int x = r.below(100);
      if (q.empty() || x < grow) {
        if (r.chance(1, 8)) { std::vector<Tr> v; int n = r.below(40); std::vector<int> k; for (int i = 0; i < n; ++i) k.push_back(r.below(span)); if (Sorted<Q>::value) { std::sort(k.rbegin(), k.rend()); if (Sorted<Q>::value > 1) k.erase(std::unique(k.begin(), k.end()), k.end()); }
          for (int z : k) v.push_back(Tr(z)); L("push range of %zu\n", v.size()); const Tr* b = v.data(); q.push(b, b + v.size()); }
        else { int k = r.below(span); L("push %d\n", k); q.push(Tr(k)); }
      } else if (x < 96) { if (r.chance(1,3)) { int k = q.top().key(); L("decreaseTop %d\n", k); doDec(q, k - (int)r.below(5), 0); } else { L("pop\n"); q.pop().key(); } }
      else if (x < 97) { L("clear\n"); doClear(q, 0); }
      else { L("traverse\n"); touch(q, 0); }
      if (!q.empty() && r.chance(1,4)) q.top().key();
    }
    if (r.chance(1,2)) while (!q.empty()) q.pop().key();
    L("destroy\n");
  }
}
template<bool FI> void tree(Rng& r, uint64_t number) {
  typedef mathic::ComTree<Tr,FI> T; L("ComTree fastIndex=%d\n", (int)FI);
  std::vector<std::unique_ptr<T> > ts; std::vector<size_t> sz; ts.emplace_back(new T(r.below(3) ? 0 : r.below(20))); sz.push_back(0);
  int steps = number < 30 ? 2 + number : 80;
  for (int s = 0; s < steps; ++s) {
    ++vp::OPS; size_t i = r.below(ts.size()), j = r.below(ts.size());
    switch (r.below(12)) {
      case 0: case 1: case 2: case 3: case 4: { int n = 1 + r.below(20); L("tree %zu: pushBack %d times\n", i, n); while (n--) { ts[i]->pushBack(Tr(n)); sz[i]++; } break; }
      case 5: { if (!ts[i]->empty()) { L("tree %zu: popBack\n", i); ts[i]->popBack(); sz[i]--; } break; }
      case 6: { if (ts.size() < 6) { L("copy of tree %zu\n", i); if (r.chance(1,2)) ts.emplace_back(new T(*ts[i])); else ts.emplace_back(new T(*ts[i], r.below(80))); sz.push_back(sz[i]); } break; }
      case 7: { if (ts.size() < 6) { L("move of tree %zu\n", i); ts.emplace_back(new T(std::move(*ts[i]))); size_t n = sz[i]; sz.push_back(n); sz[i] = 0; } break; }
      case 8: { L("swap trees %zu %zu\n", i, j); ts[i]->swap(*ts[j]); std::swap(sz[i], sz[j]); break; }
      case 9: { L("tree %zu: clear\n", i); ts[i]->clear(); sz[i] = 0; break; }
      case 10: { L("tree %zu: increaseCapacity\n", i); if (sz[i] < 500) ts[i]->increaseCapacity(); break; }
      case 11: { if (ts.size() > 1) { L("destroy tree %zu\n", i); ts.erase(ts.begin() + i); sz.erase(sz.begin() + i); } break; }
    }
    for (size_t k = 0; k < ts.size(); ++k) { CHECK(ts[k]->size() == sz[k], "tree %zu has size %zu instead of %zu", k, ts[k]->size(), sz[k]); CHECK(ts[k]->capacity() >= sz[k], "size above capacity"); typename T::Node n; for (size_t x = 0; x < sz[k]; ++x, ++n) (*ts[k])[n].key(); }
  }
}
#define G(F, D) case F: queue<mathic::Geobucket<GConf<F,D> > >(r, n, gc<GConf<F,D> >(r), "Geobucket flags " #F " dedup " #D); break;
template<class C> C gc(Rng& r) { C c; c.minBucketSize = 1 + r.below(6); c.geoBase = 2 + r.below(3); return c; }
void run_case(Rng& r, uint64_t n) {
  long live = LIVE, obj = OBJ;
  switch (r.below(9)) {
    case 0: tree<false>(r, n); break; case 1: tree<true>(r, n); break;
    case 2: queue<mathic::Heap<TConf<false,false> > >(r, n, TConf<false,false>(), "Heap"); break;
    case 3: queue<mathic::Heap<TConf<true,true> > >(r, n, TConf<true,true>(), "Heap dedup fastIndex"); break;
    case 4: queue<mathic::TourTree<TConf<false,false> > >(r, n, TConf<false,false>(), "TourTree"); break;
    case 5: queue<mathic::StlSet<TConf<false,false> > >(r, n, TConf<false,false>(), "StlSet"); break;
    default: switch (r.below(2) ? (int)r.below(48) / 5 * 5 : (int)r.below(48) / 7 * 7) {
      G(0,false) G(5,true) G(10,false) G(15,true) G(20,false) G(25,false) G(30,true) G(35,false) G(40,false) G(45,true)
      G(7,false) G(14,true) G(21,false) G(28,false) G(42,true) }
  }
  CHECK(OBJ == obj, "%ld entries are not destroyed", OBJ - obj);
  CHECK(LIVE == live, "%ld allocations are not released", LIVE - live);
}
