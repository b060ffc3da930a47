// Reference checks of the priority queues against a multiset.
#ifndef VP_QUEUE_MODEL_H
#define VP_QUEUE_MODEL_H
#include "common.h"
#include <memory>
#include <utility>
struct E8 { int key; int id; };                        // 8 bytes: a power of two
struct E12 { int key; int id; int pad; };              // not a power of two
struct EW { int key; int pad; uint64_t weight; };      // 16 bytes, for deduplication
static E8 mk(E8*, int k, int id) { E8 e; e.key = k; e.id = id; return e; }
static E12 mk(E12*, int k, int id) { E12 e; e.key = k; e.id = id; e.pad = k ^ id; return e; }
template<class E> bool same(const E& a, const E& b) { return a.key == b.key && a.id == b.id; }
template<class E> bool lessId(const E& a, const E& b) { return a.key != b.key ? a.key < b.key : a.id < b.id; }
inline std::ostream& operator<<(std::ostream& o, const E8& e) { return o << e.key; }
inline std::ostream& operator<<(std::ostream& o, const E12& e) { return o << e.key; }
inline std::ostream& operator<<(std::ostream& o, const EW& e) { return o << e.key; }
// the order: key*sign, where sign is state of the configuration
template<class E, bool FI> struct Conf {
  typedef E Entry; typedef int CompareResult; static const bool fastIndex = FI; static const bool supportDeduplication = false;
  int sign; Conf(int s): sign(s) {}
  CompareResult compare(const Entry& a, const Entry& b) const { ++vp::OPS; return sign > 0 ? (a.key < b.key ? -1 : a.key > b.key) : (b.key < a.key ? -1 : b.key > a.key); }
  bool cmpLessThan(CompareResult r) const { return r < 0; } bool cmpEqual(CompareResult r) const { return r == 0; }
  Entry deduplicate(const Entry& a, const Entry&) const { vp::fail("deduplicate called although it is switched off"); return a; }
};
template<bool FI> struct DConf {
  typedef EW Entry; typedef int CompareResult; static const bool fastIndex = FI; static const bool supportDeduplication = true;
  int sign; DConf(int s): sign(s) {}
  CompareResult compare(const Entry& a, const Entry& b) const { ++vp::OPS; return sign > 0 ? (a.key < b.key ? -1 : a.key > b.key) : (b.key < a.key ? -1 : b.key > a.key); }
  bool cmpLessThan(CompareResult r) const { return r < 0; } bool cmpEqual(CompareResult r) const { return r == 0; }
  Entry deduplicate(const Entry& a, const Entry& b) const { CHECK(a.key == b.key, "deduplicate called on unequal entries %d and %d", a.key, b.key); Entry e = a; e.weight += b.weight; return e; }
};
template<class E> struct Collect { std::vector<E> v; size_t stop; Collect(): stop(~(size_t)0) {} bool proceed(const E& e) { v.push_back(e); return v.size() < stop; } };
// key sources
struct Keys {
  int mode, span, cur; Keys(Rng& r) { mode = r.below(5); span = r.chance(1,2) ? 1 + r.below(6) : 1 + r.below(1000); cur = 0; }
  int next(Rng& r) { switch (mode) { case 0: case 1: return r.range(-span, span); case 2: return cur += r.below(3); case 3: return cur -= (int)r.below(3); default: return r.chance(1,3) ? (cur += r.range(-5,5)) : cur; } }
};
struct Caps { bool size, forall, dec, clear, sortedRange, strictRange; };
template<class Q, class E> struct Ops {
  template<class X> static auto size(X& q, size_t n, int) -> decltype(q.size(), void()) { CHECK(q.size() == n, "size() is %zu, %zu entries are stored", (size_t)q.size(), n); }
  template<class X> static void size(X&, size_t, long) {}
  template<class X> static auto collect(X& q, Collect<E>& c, int) -> decltype(q.forAll(c), true) { const X& cq = q; cq.forAll(c); return true; }
  template<class X> static bool collect(X&, Collect<E>&, long) { return false; }
  template<class X> static auto dec(X& q, E e, int) -> decltype(q.decreaseTop(e), true) { q.decreaseTop(e); return true; }
  template<class X> static bool dec(X&, E, long) { return false; }
  template<class X> static auto clear(X& q, int) -> decltype(q.clear(), true) { q.clear(); return true; }
  template<class X> static bool clear(X&, long) { return false; }
};
template<class Q> struct SortedRange { static const bool value = false; };
template<class Q> void run_queue(Rng& r, uint64_t number, const char* name) {
  typedef typename Q::Entry E; typedef typename Q::Configuration C; typedef Ops<Q,E> O;
  int sign = r.chance(1,2) ? 1 : -1; C conf(sign); conf_init(conf, r);
  std::unique_ptr<Q> qp(new Q(conf)); Q& q = *qp;
  std::vector<E> m; int id = 0; Keys keys(r);
  int steps = number < 40 ? 3 + (int)number : r.chance(1, 30) ? 2000 : r.chance(1,3) ? 300 : 60; int grow = r.range(40, 75);
  if (steps >= 2000) grow = r.range(55, 90);
  L("%s sign=%d\n", name, sign);
  for (int s = 0; s < steps; ++s) {
    vp::OPS++;
    bool doPush = m.empty() || (int)r.below(100) < grow;
    if (steps >= 300 && r.chance(1, 200)) grow = r.range(20, 80);
    if (doPush && r.chance(1, 6)) {
      int n = r.chance(1,10) ? r.below(60) : r.below(8); std::vector<E> v;
      for (int i = 0; i < n; ++i) v.push_back(mk((E*)0, keys.next(r), id++));
      if (SortedRange<Q>::value) std::stable_sort(v.begin(), v.end(), [&](const E& a, const E& b) { return sign * (long)a.key > sign * (long)b.key; });
      L("push range of %d:", n); for (size_t i = 0; i < v.size() && i < 30; ++i) L(" %d", v[i].key); L("\n");
      const E* b = v.data(); q.push(b, b + v.size()); m.insert(m.end(), v.begin(), v.end());
    } else if (doPush) {
      E e = mk((E*)0, keys.next(r), id++); L("push %d#%d\n", e.key, e.id); q.push(e); m.push_back(e);
    } else {
      size_t best = 0; for (size_t i = 1; i < m.size(); ++i) if (sign * (long)m[i].key > sign * (long)m[best].key) best = i;
      int k = m[best].key;
      if (r.chance(1, 400) && O::clear(q, 0)) { L("clear\n"); m.clear(); }
      else if (r.chance(1, 4)) {
        E t = q.top(); CHECK(t.key == k, "top() returns %d, the maximum is %d", t.key, k);
        E e = mk((E*)0, r.chance(1,5) ? keys.next(r) : k - sign * (int)r.below(keys.span + 2), id);
        L("decreaseTop %d#%d -> %d#%d\n", t.key, t.id, e.key, e.id);
        if (O::dec(q, e, 0)) { id++; size_t i = 0; while (i < m.size() && !same(m[i], t)) ++i; CHECK(i < m.size(), "top() returns an entry that is not stored"); m[i] = e; }
      } else {
        E t = q.pop(); L("pop -> %d#%d\n", t.key, t.id); CHECK(t.key == k, "pop() returns %d, the maximum is %d", t.key, k);
        size_t i = 0; while (i < m.size() && !same(m[i], t)) ++i; CHECK(i < m.size(), "pop() returns an entry that is not stored (%d#%d)", t.key, t.id); m.erase(m.begin() + i);
      }
    }
    O::size(q, m.size(), 0); CHECK(q.empty() == m.empty(), "empty() is %d with %zu entries stored", (int)q.empty(), m.size());
    if (!m.empty()) {
      size_t best = 0; for (size_t i = 1; i < m.size(); ++i) if (sign * (long)m[i].key > sign * (long)m[best].key) best = i;
      E t = q.top(); CHECK(t.key == m[best].key, "top() is %d, the maximum is %d", t.key, m[best].key);
    }
    if (m.size() < 40 || r.chance(1, 20)) {
      Collect<E> c;
      if (O::collect(q, c, 0)) {
        std::vector<E> a = c.v, b = m; std::sort(a.begin(), a.end(), lessId<E>); std::sort(b.begin(), b.end(), lessId<E>);
        CHECK(a.size() == b.size(), "traversal sees %zu entries, %zu are stored", a.size(), b.size());
        for (size_t i = 0; i < a.size(); ++i) CHECK(same(a[i], b[i]), "traversal sees an entry %d#%d that is not stored", a[i].key, a[i].id);
        if (!m.empty()) { Collect<E> d; d.stop = 1 + r.below(m.size()); size_t st = d.stop; O::collect(q, d, 0); CHECK(d.v.size() == st, "traversal told to stop after %zu entries gives %zu", st, d.v.size()); }
      }
    }
  }
  L("drain\n"); long last = 0; bool first = true;
  while (!m.empty()) {
    CHECK(!q.empty(), "empty() with %zu entries stored", m.size());
    E t = q.pop(); CHECK(first || sign * (long)t.key <= last, "popped %d after a smaller entry", t.key); last = sign * (long)t.key; first = false;
    size_t i = 0; while (i < m.size() && !same(m[i], t)) ++i; CHECK(i < m.size(), "pop() returns an entry that is not stored (%d#%d)", t.key, t.id); m[i] = m.back(); m.pop_back();
  }
  CHECK(q.empty(), "not empty after popping everything");
}
// with deduplication: entries are keys with weights; the content is the total weight of each key
template<class Q> void run_dedup(Rng& r, uint64_t number, const char* name) {
  typedef EW E; typedef typename Q::Configuration C; typedef Ops<Q,E> O;
  int sign = r.chance(1,2) ? 1 : -1; C conf(sign); conf_init(conf, r);
  std::unique_ptr<Q> qp(new Q(conf)); Q& q = *qp; std::map<int,uint64_t> m; Keys keys(r);
  int steps = number < 40 ? 3 + (int)number : r.chance(1, 30) ? 2000 : r.chance(1,3) ? 300 : 60; int grow = r.range(40, 75);
  if (r.chance(1,2)) keys.span = 2 + r.below(40);
  L("%s sign=%d\n", name, sign); uint64_t w = 1;
  auto top = [&]() { return sign > 0 ? m.rbegin()->first : m.begin()->first; };
  auto take = [&](const E& t) { auto it = m.find(t.key); CHECK(it != m.end() && it->second >= t.weight && t.weight > 0, "more content of key %d comes out than went in", t.key); it->second -= t.weight; if (it->second == 0) m.erase(it); };
  for (int s = 0; s < steps; ++s) {
    vp::OPS++; bool doPush = m.empty() || (int)r.below(100) < grow; w = w * 3 + 1; if (w > 100000) w = 1 + r.below(5);
    if (doPush && r.chance(1, 6)) {
      int n = r.chance(1,10) ? r.below(60) : r.below(8); std::vector<E> v;
      for (int i = 0; i < n; ++i) { E e; e.key = keys.next(r); e.pad = 0; e.weight = w + i; v.push_back(e); }
      if (SortedRange<Q>::value) { std::stable_sort(v.begin(), v.end(), [&](const E& a, const E& b) { return sign * (long)a.key > sign * (long)b.key; });
        v.erase(std::unique(v.begin(), v.end(), [](const E& a, const E& b) { return a.key == b.key; }), v.end()); }
      L("push range of %zu:", v.size()); for (size_t i = 0; i < v.size() && i < 30; ++i) L(" %d", v[i].key); L("\n");
      const E* b = v.data(); q.push(b, b + v.size()); for (size_t i = 0; i < v.size(); ++i) m[v[i].key] += v[i].weight;
    } else if (doPush) { E e; e.key = keys.next(r); e.pad = 0; e.weight = w; L("push %d weight %llu\n", e.key, (unsigned long long)e.weight); q.push(e); m[e.key] += w; }
    else if (r.chance(1, 400) && O::clear(q, 0)) { L("clear\n"); m.clear(); }
    else if (r.chance(1, 4)) {
      E t = q.top(); CHECK(t.key == top(), "top() returns %d, the maximum is %d", t.key, top());
      E e; e.key = r.chance(1,5) ? keys.next(r) : t.key - sign * (int)r.below(keys.span + 2); e.pad = 0; e.weight = w; L("decreaseTop %d (weight %llu) -> %d (weight %llu)\n", t.key, (unsigned long long)t.weight, e.key, (unsigned long long)w);
      if (O::dec(q, e, 0)) { take(t); m[e.key] += w; }
    } else { E t = q.pop(); L("pop -> %d weight %llu\n", t.key, (unsigned long long)t.weight); CHECK(m.count(t.key), "popped key %d is not stored", t.key);
      CHECK(t.key == top(), "pop() returns %d, the maximum is %d", t.key, top()); take(t); }
    CHECK(q.empty() == m.empty(), "empty() is %d with %zu keys stored", (int)q.empty(), m.size());
    if (!m.empty()) { E t = q.top(); CHECK(t.key == top(), "top() is %d, the maximum is %d", t.key, top()); }
    Collect<E> c;
    if ((m.size() < 40 || r.chance(1, 20)) && O::collect(q, c, 0)) {
      O::size(q, c.v.size(), 0); std::map<int,uint64_t> b; for (size_t i = 0; i < c.v.size(); ++i) b[c.v[i].key] += c.v[i].weight;
      for (auto& x : m) CHECK(b.count(x.first) && b[x.first] == x.second, "content of key %d is %llu, pushed minus popped is %llu", x.first, (unsigned long long)b[x.first], (unsigned long long)x.second);
      CHECK(b.size() == m.size(), "traversal sees a key that is not stored");
    }
  }
  L("drain\n"); uint64_t guard = 100000;
  while (!m.empty()) { CHECK(!q.empty() && guard--, "empty with content left"); E t = q.pop(); CHECK(m.count(t.key), "popped key %d is not stored", t.key); CHECK(t.key == top(), "pop() returns %d, the maximum is %d", t.key, top()); take(t); }
  CHECK(q.empty(), "not empty after all content came out");
}
#endif
