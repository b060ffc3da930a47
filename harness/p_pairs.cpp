// PairQueue.  PROP=1: order and completeness (R01); PROP=2: pair data (R02)
#include "common.h"
#include "mathic/PairQueue.h"
#include <memory>
static long ALIVE = 0;
#if PROP == 2
#define C2(...) CHECK(__VA_ARGS__)
#define C1(...) do {} while (0)
#else
#define C1(...) CHECK(__VA_ARGS__)
#define C2(...) do {} while (0)
#endif
struct PD { long col, row, key; long self; char* mem;
  PD(): col(-1), row(-1), key(0), self(42), mem(new char[3]) { ++ALIVE; } ~PD() { C2(self == 42, "pair data is destroyed that is not alive"); self = 7; delete[] mem; --ALIVE; }
  PD(const PD&) = delete; };
static uint64_t KMODE = 0, KSEED = 0; static std::vector<char>* RET = 0;
static long keyOf(long c, long w) { uint64_t x; switch (KMODE) { case 0: return c + w; case 1: return w; case 2: return (c * 7 + w * 3) % 5; case 3: return -c * 1000 - w; case 4: return c * 100000 + w; default: x = (KSEED + c * 1000003 + w) * 0x9E3779B97F4A7C15ull; x ^= x >> 29; x *= 0xBF58476D1CE4E5B9ull; return (long)((x >> 40) % (KMODE == 5 ? 10 : 1000)); } }
struct PC {
  int id; PC(int i): id(i) {}
  typedef PD PairData; typedef int CompareResult;
  void computePairData(size_t c, size_t w, PD& d) const { ++vp::OPS; C2(d.self == 42, "pair data is computed for an object that is not alive"); C2(c > w, "pair data computed for column %zu row %zu", c, w);
    C2(!RET || (!(*RET)[c] && !(*RET)[w]), "pair data is computed for the retired pair (%zu,%zu)", c, w);
    d.col = c; d.row = w; d.key = keyOf(c, w); }
  int compare(size_t ca, size_t ra, const PD& a, size_t cb, size_t rb, const PD& b) const { ++vp::OPS; C2(a.self == 42 && b.self == 42, "dead pair data is compared"); C2(a.col == (long)ca && a.row == (long)ra && b.col == (long)cb && b.row == (long)rb, "the data compared for (%zu,%zu) was computed for (%ld,%ld)", ca, ra, a.col, a.row);
    long x = keyOf(ca, ra), y = keyOf(cb, rb); return x < y ? -1 : x > y; }
  bool cmpLessThan(int r) const { return r < 0; }
};
struct PCN : PC { PCN(int i): PC(i) {} };
namespace mathic { namespace PairQueueNamespace {
  template<> struct SupportRetirement<PCN> { static bool const value = false; };
  template<> struct DestructPairDataFunction<PC> { static void function(PD* p, Index c, Index w, PC&) { C2(p->col == (long)c && p->row == (long)w, "data computed for (%ld,%ld) is destroyed as that of (%ld,%ld)", p->col, p->row, (long)c, (long)w); p->~PD(); } };
  template<> struct DestructPairDataFunction<PCN> { static void function(PD* p, Index c, Index w, PCN&) { C2(p->col == (long)c && p->row == (long)w, "data computed for (%ld,%ld) is destroyed as that of (%ld,%ld)", p->col, p->row, (long)c, (long)w); p->~PD(); } };
} }
template<class Q> void doRetire(Q& q, size_t i, std::true_type) { q.retireIndex(i); } template<class Q> void doRetire(Q&, size_t, std::false_type) {}
template<class C> void history(Rng& r, uint64_t n, bool retire, bool big) {
  typedef mathic::PairQueue<C> Q; long alive = ALIVE; std::vector<char> ret; KMODE = r.below(7); KSEED = r.next() >> 20; L("pair queue, key mode %d, retirement %d\n", (int)KMODE, (int)retire);
  { C conf(77); std::unique_ptr<Q> qp(new Q(conf)); Q& q = *qp; CHECK(q.configuration().id == 77, "configuration is not stored"); RET = &ret;
    std::vector<std::vector<int> > m; size_t live = 0; // rows left per column, retired pairs included until seen
    typename Q::Index* null = 0;
    if (big) { size_t k = 65530; L("%zu empty columns\n", k); for (size_t i = 0; i < k; ++i) { q.addColumnDescending(null, null); m.push_back(std::vector<int>()); ret.push_back(0); } }
    auto alivePair = [&](int c, int w) { return !ret[c] && !ret[w]; };
    auto count = [&]() { size_t x = 0; for (size_t c = big ? 65530 : 0; c < m.size(); ++c) if (!ret[c]) for (int w : m[c]) if (!ret[w]) ++x; return x; };
    int steps = n < 30 ? 3 + n : big ? 60 : r.chance(1,8) ? 250 : 70; size_t maxc = big ? 65530 + 20 : 40; bool didRetire = false;
    for (int s = 0; s < steps; ++s) {
      int op = r.below(20);
      if ((op < 7 || m.size() < 3) && m.size() < maxc) {
        size_t c = m.size(); std::vector<int> rows; if (!r.chance(1,8)) { if (big) for (int i = 0; i < 8; ++i) { int w = r.chance(1,2) ? r.below(c) : (int)c - 1 - (int)r.below(9); if (!ret[w] && std::find(rows.begin(), rows.end(), w) == rows.end()) rows.push_back(w); } else for (size_t w = 0; w < c; ++w) if (!ret[w] && r.chance(2,3)) rows.push_back(w); }
        for (size_t i = rows.size(); i > 1; --i) std::swap(rows[i-1], rows[r.below(i)]);
        std::stable_sort(rows.begin(), rows.end(), [&](int a, int b) { return keyOf(c, a) > keyOf(c, b); });
        L("add column %zu:", c); for (int w : rows) L(" %d(%ld)", w, keyOf(c, w)); L("\n"); ret.push_back(0); q.addColumnDescending(rows.begin(), rows.end()); m.push_back(rows);
      } else if (retire && op < 9 && m.size() > 2) {
        size_t i = big ? (r.chance(1,2) ? m.size() - 1 - r.below(18) : r.below(m.size())) : r.below(m.size()); if (!ret[i]) { L("retire %zu\n", i); ret[i] = 1; didRetire = true; doRetire(q, i, std::integral_constant<bool, Q::SupportRetirement>()); CHECK(q.retired(i), "retired(%zu) is false after retirement", i); }
      } else if (count()) {
        CHECK(!q.empty(), "empty() with pairs left"); auto p = q.topPair(); L("pop (%zu,%zu)\n", p.first, p.second); auto& col = m[p.first]; auto it = std::find(col.begin(), col.end(), (int)p.second); C1(it != col.end(), "the popped pair (%zu,%zu) is not in the queue", p.first, p.second); if (it != col.end()) col.erase(it); q.pop();
      }
      size_t cnt = count(); CHECK(q.columnCount() == m.size(), "columnCount"); C1(q.empty() == (cnt == 0), "empty() is %d with %zu pairs left", (int)q.empty(), cnt);
      size_t pc = q.pairCount(); if (!didRetire) C1(pc == cnt, "pairCount() is %zu with %zu pairs left", pc, cnt); else C1(pc >= cnt, "pairCount() is %zu with %zu pairs left", pc, cnt);
      if (!q.empty()) { auto p = q.topPair(); C1(p.first < m.size() && alivePair(p.first, p.second), "the top pair (%zu,%zu) is retired", p.first, p.second); C1(std::find(m[p.first].begin(), m[p.first].end(), (int)p.second) != m[p.first].end(), "the top pair (%zu,%zu) is not in the queue", p.first, p.second);
        long k = keyOf(p.first, p.second); for (size_t c = big ? 65530 : 0; c < m.size(); ++c) for (int w : m[c]) if (alivePair(c, w)) C1(keyOf(c, w) <= k, "the top pair (%zu,%zu) is preceded by (%zu,%d)", p.first, p.second, c, w);
        const PD& d = q.topPairData(); C2(d.self == 42 && d.col == (long)p.first && d.row == (long)p.second, "the data of the top pair (%zu,%zu) was computed for (%ld,%ld)", p.first, p.second, d.col, d.row); C2(d.key == k, "pair data is changed"); }
      else C2(ALIVE == alive, "%ld pair data objects are alive with no pair left", ALIVE - alive);
      for (size_t i = big ? 65530 : 0; i < m.size(); ++i) CHECK((bool)q.retired(i) == (bool)ret[i], "retired(%zu) is wrong", i);
    }
    if (r.chance(1,2)) { L("drain\n"); size_t c = count(); while (c--) { CHECK(!q.empty(), "empty() with pairs left"); auto p = q.topPair(); auto& col = m[p.first]; auto it = std::find(col.begin(), col.end(), (int)p.second); C1(it != col.end() && alivePair(p.first, p.second), "a pair is popped twice or retired"); if (it != col.end()) col.erase(it); q.pop(); } C1(q.empty(), "not empty after every pair was popped"); C2(ALIVE == alive || !q.empty(), "pair data is alive in an empty queue"); }
    L("destroy\n"); RET = 0;
  }
  C2(ALIVE == alive, "%ld pair data objects are not destroyed", ALIVE - alive);
}
void run_case(Rng& r, uint64_t n) { if (n % 40 == 13) { if (r.chance(1,2)) history<PC>(r, n, true, true); else history<PCN>(r, n, false, true); } else if (r.chance(2,3)) history<PC>(r, n, true, false); else history<PCN>(r, n, false, false); }
