seed("heap-odd-last", "Q01", "Heap.h", "const Node firstWithout2Children = _tree.lastLeaf().next().parent();", "const Node firstWithout2Children = _tree.lastLeaf().parent();",
 "a heap of odd size in which the hole reaches the parent of the last leaf", "the hole stays above two larger children, so the order is broken",
 '#include "mathic/Heap.h"\n' + QCONF + "int main() { for (int s = 1; s < 200; ++s) { mathic::Heap<QC<false> > a((QC<false>())); mathic::Heap<QC<true> > b((QC<true>())); if (history(a, 400, 60, s)) return 1; if (history(b, 400, 60, s)) return 1; } return 0; }\n")
seed("mask-zero-unset", "D01", "DivMask.h", "void combineAnd(const DivMask& mask) {_mask &= mask._mask;}", "void combineAnd(const DivMask& mask) {if (_mask == 0) _mask = mask._mask; else _mask &= mask._mask;}",
 "an intersection of masks that has become empty and is then combined with one more mask", "the combined mask rejects multiples of the objects combined earlier",
 r'''#include "mathic/DivMask.h"
struct C { typedef int Exponent; static const bool UseDivMask = true; size_t getVarCount() const { return 2; } int getExponent(const std::vector<int>& m, size_t v) const { return m[v]; } bool divides(const std::vector<int>& a, const std::vector<int>& b) const { return a[0] <= b[0] && a[1] <= b[1]; } };
int main() { C c; mathic::DivMask::Calculator<C> k(c); typedef mathic::DivMask::Extender<std::vector<int>, true> X;
  for (int t = 0; t < 5000; ++t) { std::vector<std::vector<int> > v(3, std::vector<int>(2)); for (auto& m : v) for (int& e : m) e = rnd(4); mathic::DivMask::HasDivMask<true> h; for (auto& m : v) h.updateToLowerBound(X(m, k, c)); for (auto& m : v) EXPECT(h.canDivide(X(m, k, c))); } return 0; }
''')
seed("wrap-exact-fit", "F03", "display.cpp", "_lineSize + wordAndPrefixSize  > ConsoleWidth", "_lineSize + word.size() > ConsoleWidth",
 "a word that fits the rest of the line but not together with the blank in front of it", "a line is printed that is wider than the console",
 r'''#include "mathic/display.h"
int main() { for (int a = 1; a < 79; ++a) { std::string m = std::string(a, 'x') + " " + std::string(79 - a, 'y') + " z"; char* b = 0; size_t n = 0; FILE* o = stderr; stderr = open_memstream(&b, &n); mathic::display(m); fclose(stderr); stderr = o; std::istringstream in(std::string(b, n)); std::string l; while (std::getline(in, l)) EXPECT(l.size() <= 79); } return 0; }
''', "display")
seed("packed-split-mask", "D04", "PackedKDTree.h", "          else {\n            riter prev = child;\n            --prev;\n            child->updateToLowerBound(*prev);\n          }", "          else {\n            riter prev = rbegin;\n            child->updateToLowerBound(*prev);\n          }",
 "a node built by a rebuild with at least three children whose middle sibling holds the only divisor", "the mask of an earlier child does not cover a later sibling, so divisors are missed",
 r'''#include "mathic/KDTree.h"
#include "mathic/DivMask.h"
struct C { typedef int Exponent; typedef std::vector<int> Monomial; typedef std::vector<int> Entry; static const bool UseDivMask = true, UseTreeDivMask = true, PackedTree = true, AllowRemovals = true; static const size_t LeafSize = 1;
  size_t getVarCount() const { return 3; } int getExponent(const std::vector<int>& m, size_t v) const { return m[v]; } bool divides(const std::vector<int>& a, const std::vector<int>& b) const { for (int i = 0; i < 3; ++i) if (a[i] > b[i]) return false; return true; }
  bool isLessThan(const std::vector<int>& a, const std::vector<int>& b) const { return a < b; }
  bool getSortOnInsert() const { return false; } bool getUseDivisorCache() const { return false; } bool getDoAutomaticRebuilds() const { return false; } double getRebuildRatio() const { return 0.5; } size_t getRebuildMin() const { return 5; } };
int main() { for (int s = 1; s < 60; ++s) { RS = s; mathic::KDTree<C> t((C())); std::set<std::vector<int> > es; int n = 3 + rnd(20); while ((int)es.size() < n) { std::vector<int> m(3); for (int& e : m) e = rnd(8); if (es.insert(m).second) t.insert(m); } t.rebuild();
  for (int q = 0; q < 300; ++q) { std::vector<int> m(3); for (int& e : m) e = rnd(9); bool has = false; C c; for (auto& e : es) if (c.divides(e, m)) has = true; auto* d = t.findDivisor(m); EXPECT((d != 0) == has); } } return 0; }
''')

KD = r"""
#include "mathic/KDTree.h"
#include "mathic/DivMask.h"
typedef std::vector<int> M;
template<bool P, bool TM, size_t LS> struct KC { typedef int Exponent; typedef M Monomial; typedef M Entry; static const bool UseDivMask = true, UseTreeDivMask = TM, PackedTree = P, AllowRemovals = true; static const size_t LeafSize = LS;
  bool sort, autob; KC(bool s, bool a): sort(s), autob(a) {}
  size_t getVarCount() const { return 3; } int getExponent(const M& m, size_t v) const { return m[v]; } bool divides(const M& a, const M& b) const { for (int i = 0; i < 3; ++i) if (a[i] > b[i]) return false; return true; } bool isLessThan(const M& a, const M& b) const { return a < b; }
  bool getSortOnInsert() const { return sort; } bool getUseDivisorCache() const { return false; } bool getDoAutomaticRebuilds() const { return autob; } double getRebuildRatio() const { return 0.5; } size_t getRebuildMin() const { return 7; } };
static M mono(int k) { M m(3); for (int& e : m) e = rnd(k); return m; }
struct Col { std::vector<M> v; size_t stop = ~(size_t)0; bool proceed(const M& m) { v.push_back(m); return v.size() < stop; } void push_back(M& m) { v.push_back(m); } };
template<bool P, bool TM, size_t LS> int kd(unsigned seed) { RS = seed; typedef KC<P,TM,LS> C; C c(seed & 1, seed & 2); mathic::KDTree<C> t(c); std::multiset<M> s; int k = 3 + rnd(9);
  for (int i = 0; i < 150; ++i) { int op = rnd(12); M m = mono(k);
    if (op < 5 && !s.count(m)) { t.insert(m); s.insert(m); } else if (op == 5) { Col o; std::vector<M> w; for (auto it = s.begin(); it != s.end();) if (c.divides(m, *it)) { w.push_back(*it); it = s.erase(it); } else ++it; bool b = t.removeMultiples(m, o); std::sort(o.v.begin(), o.v.end()); EXPECT(b == !w.empty()); EXPECT(o.v == w); }
    else if (op == 6) { bool b = t.removeElement(m); auto it = s.find(m); EXPECT(b == (it != s.end())); if (b) s.erase(it); } else if (op == 7 && rnd(4) == 0) t.rebuild(); else if (op == 7 && rnd(8) == 0) { t.clear(); s.clear(); }
    EXPECT(t.size() == s.size()); m = mono(k + 1); bool has = false; std::vector<M> dv, mu; for (auto& e : s) { if (c.divides(e, m)) dv.push_back(e); if (c.divides(m, e)) mu.push_back(e); }
    M* d = t.findDivisor(m); EXPECT((d != 0) == !dv.empty()); if (d) EXPECT(s.count(*d) && c.divides(*d, m)); Col a, b, f; t.findAllDivisors(m, a); t.findAllMultiples(m, b); t.forAll(f); std::sort(a.v.begin(), a.v.end()); std::sort(b.v.begin(), b.v.end()); std::sort(f.v.begin(), f.v.end()); EXPECT(a.v == dv); EXPECT(b.v == mu); EXPECT(f.v == std::vector<M>(s.begin(), s.end())); } return 0; }
int main() { for (int s = 1; s < 120; ++s) if (kd<false,false,1>(s) || kd<false,true,3>(s) || kd<true,false,1>(s) || kd<true,true,3>(s) || kd<true,true,1>(s) || kd<false,true,1>(s)) return 1; return 0; }
"""
DL = r"""
#include "mathic/DivList.h"
typedef std::vector<int> M;
template<bool LL, bool DM> struct LC { typedef int Exponent; typedef M Monomial; typedef M Entry; static const bool UseDivMask = DM, UseLinkedList = LL; bool sort, autob; LC(bool s, bool a): sort(s), autob(a) {}
  size_t getVarCount() const { return 3; } int getExponent(const M& m, size_t v) const { return m[v]; } bool divides(const M& a, const M& b) const { for (int i = 0; i < 3; ++i) if (a[i] > b[i]) return false; return true; } bool isLessThan(const M& a, const M& b) const { return a < b; }
  bool getSortOnInsert() const { return sort; } bool getDoAutomaticRebuilds() const { return autob; } double getRebuildRatio() const { return 0.5; } size_t getRebuildMin() const { return 7; } };
struct Col { std::vector<M> v; bool proceed(const M& m) { v.push_back(m); return true; } void push_back(M& m) { v.push_back(m); } };
template<bool LL, bool DM> int dl(unsigned seed) { RS = seed; typedef LC<LL,DM> C; C c(seed & 1, seed & 2); mathic::DivList<C> t(c); std::multiset<M> s; int k = 2 + rnd(9);
  for (int i = 0; i < 220; ++i) { int op = rnd(12); M m(3); for (int& e : m) e = rnd(k);
    if (op < 8) { t.insert(m); s.insert(m); } else if (op == 8 && rnd(6) == 0) { m[rnd(3)] += k / 2; Col o; std::vector<M> w; for (auto it = s.begin(); it != s.end();) if (c.divides(m, *it)) { w.push_back(*it); it = s.erase(it); } else ++it; bool b = t.removeMultiples(m, o); std::sort(o.v.begin(), o.v.end()); EXPECT(b == !w.empty()); EXPECT(o.v == w); }
    else if (op == 9) { bool b = t.removeElement(m); auto it = s.find(m); EXPECT(b == (it != s.end())); if (b) s.erase(it); } else if (op == 10 && rnd(5) == 0) t.rebuild(); 
    EXPECT(t.size() == s.size()); for (int& e : m) e = rnd(k + 1); std::vector<M> dv, mu; for (auto& e : s) { if (c.divides(e, m)) dv.push_back(e); if (c.divides(m, e)) mu.push_back(e); }
    M* d = t.findDivisor(m); EXPECT((d != 0) == !dv.empty()); if (d) EXPECT(s.count(*d) && c.divides(*d, m)); Col a, b, f; t.findAllDivisors(m, a); t.findAllMultiples(m, b); t.forAll(f); std::sort(a.v.begin(), a.v.end()); std::sort(b.v.begin(), b.v.end()); std::sort(f.v.begin(), f.v.end()); EXPECT(a.v == dv); EXPECT(b.v == mu); EXPECT(f.v == std::vector<M>(s.begin(), s.end())); } return 0; }
int main() { for (int s = 1; s < 200; ++s) if (dl<false,false>(s) || dl<false,true>(s) || dl<true,false>(s) || dl<true,true>(s)) return 1; return 0; }
"""
seed("dedup-lastleaf", "Q05", "Heap.h", "value = _tree[_tree.lastLeaf()];\n\t\t_tree.popBack();", "_tree.popBack();\n\t\tvalue = _tree[_tree.lastLeaf()];",
 "an insertion or replacement that meets an equal entry on its way up while the heap has another last leaf than the position it started from", "the entry in the last leaf is lost and the one before it is stored twice",
 r"""
#include "mathic/Heap.h"
struct E { int k; long w; }; template<bool FI> struct C { typedef E Entry; typedef int CompareResult; static const bool fastIndex = FI, supportDeduplication = true; int compare(const E& a, const E& b) const { return a.k - b.k; } bool cmpLessThan(int r) const { return r < 0; } bool cmpEqual(int r) const { return r == 0; } E deduplicate(E a, E b) const { a.w += b.w; return a; } };
template<bool FI> int go(unsigned s) { RS = s; mathic::Heap<C<FI> > h((C<FI>())); std::map<int,long> m; for (int i = 0; i < 300; ++i) { if (m.empty() || rnd(3)) { E e = {(int)rnd(12), 1 + (long)rnd(9)}; h.push(e); m[e.k] += e.w; } else if (rnd(3) == 0) { E t = h.top(); E n = {t.k - (int)rnd(5), 7}; m[t.k] -= t.w; if (!m[t.k]) m.erase(t.k); m[n.k] += 7; h.decreaseTop(n); } else { E t = h.pop(); EXPECT(t.k == m.rbegin()->first); EXPECT(m[t.k] >= t.w); m[t.k] -= t.w; if (!m[t.k]) m.erase(t.k); } EXPECT(h.empty() == m.empty()); }
  while (!h.empty()) { E t = h.pop(); EXPECT(m.count(t.k) && m[t.k] >= t.w && t.k == m.rbegin()->first); m[t.k] -= t.w; if (!m[t.k]) m.erase(t.k); } EXPECT(m.empty()); return 0; }
int main() { for (int s = 1; s < 300; ++s) if (go<false>(s) || go<true>(s)) return 1; return 0; }
""")
seed("geo-premerge-insert", "Q03", "Geobucket.h", "		if (_conf.cmpLessThan(cmp))\n		  range /= 2;", "		if (_conf.cmpLessThan(cmp))\n		  range = (range - 1) / 2;",
 "single insertion by binary search when an even number of entries remains in the range and the entry belongs just below the middle one", "a bucket is no longer sorted, so a later pop returns an entry that is not the largest",
 r"""
#include "mathic/Geobucket.h"
template<int F> struct C { typedef int Entry; typedef bool CompareResult; size_t minBucketSize = 9, geoBase = 2; static const size_t insertFactor = 1; static const bool supportDeduplication = false, minBucketBinarySearch = F & 1, trackFront = F & 2, premerge = F & 4, collectMax = F & 8; static const mathic::GeobucketBucketStorage bucketStorage = (mathic::GeobucketBucketStorage)((F / 16) % 3);
  bool compare(int a, int b) const { return a < b; } bool cmpLessThan(bool b) const { return b; } bool cmpEqual(bool) const { return false; } int deduplicate(int a, int) const { return a; } };
template<int F> int go(unsigned s) { RS = s; mathic::Geobucket<C<F> > q((C<F>())); std::multiset<int> m; for (int i = 0; i < 300; ++i) { if (m.empty() || rnd(5) < 3) { int e = rnd(40); q.push(e); m.insert(e); } else if (rnd(6) == 0) { std::vector<int> v(1 + rnd(20)); for (int& x : v) x = rnd(40); std::sort(v.rbegin(), v.rend()); q.push(v.data(), v.data() + v.size()); m.insert(v.begin(), v.end()); } else { int t = q.pop(); EXPECT(t == *m.rbegin()); m.erase(--m.end()); } EXPECT(q.size() == m.size()); if (!m.empty()) EXPECT(q.top() == *m.rbegin()); } while (!m.empty()) { EXPECT(q.pop() == *m.rbegin()); m.erase(--m.end()); } EXPECT(q.empty()); return 0; }
int main() { for (int s = 1; s < 60; ++s) if (go<0>(s) || go<1>(s) || go<3>(s) || go<5>(s) || go<9>(s) || go<15>(s) || go<8>(s) || go<24>(s) || go<40>(s) || go<47>(s) || go<20>(s) || go<36>(s)) return 1; return 0; }
""")
seed("set-equal-erased", "Q04", "StlSet.h", "	  _set.erase(_set.begin());\n	  return top;", "	  _set.erase(top);\n	  return top;",
 "two stored entries that compare equal", "popping one of several equal entries removes all of them",
 '#include "mathic/StlSet.h"\n' + QCONF + "int main() { for (int s = 1; s < 50; ++s) { RS = s; mathic::StlSet<QC<false> > q((QC<false>())); std::multiset<int> m; for (int i = 0; i < 200; ++i) { if (m.empty() || rnd(3)) { int e = rnd(20); q.push(e); m.insert(e); } else { EXPECT(q.pop() == *m.rbegin()); m.erase(--m.end()); } EXPECT(q.empty() == m.empty()); if (!m.empty()) EXPECT(q.top() == *m.rbegin()); } while (!m.empty()) { EXPECT(!q.empty()); EXPECT(q.pop() == *m.rbegin()); m.erase(--m.end()); } EXPECT(q.empty()); } return 0; }\n")
seed("tree-swap-capacity", "T01", "ComTree.h", "    std::swap(_lastLeaf, tree._lastLeaf);\n    std::swap(_capacityEnd, tree._capacityEnd);", "    std::swap(_lastLeaf, tree._lastLeaf);\n    if (!tree.empty())\n      std::swap(_capacityEnd, tree._capacityEnd);",
 "swapping a tree that is empty but has capacity with one of another capacity, then appending", "the trees keep the capacity of the other's storage, so appending writes past the end",
 r"""
#include "mathic/ComTree.h"
template<bool FI> int go() { typedef mathic::ComTree<int, FI> T; for (int a = 0; a < 40; ++a) for (int b = 0; b < 40; ++b) { T x(a), y(3); for (int i = 0; i < b; ++i) y.pushBack(i); if (a % 2) { for (int i = 0; i < a; ++i) x.pushBack(100 + i); } size_t ca = x.capacity(), cb = y.capacity(), sa = x.size(); x.swap(y); EXPECT(x.capacity() == cb && y.capacity() == ca && x.size() == (size_t)b && y.size() == sa); for (int i = 0; i < 50; ++i) { x.pushBack(i); y.pushBack(i); } typename T::Node n; for (int i = 0; i < b; ++i, ++n) EXPECT(x[n] == i); } return 0; }
int main() { return go<false>() || go<true>(); }
""")
seed("hash-chain-end", "T03", "HashTable.h", "		for ( ; r->next != 0; r = r->next) { }\n		r->next = q;", "		if (r->next != 0)\n		  r = r->next;\n		r->next = q;",
 "growth when three or more keys fall into the same bin of the larger table", "all keys of that bin but three are lost by growing",
 r"""
#include "mathic/HashTable.h"
struct C { typedef int Key; typedef int Value; int mod; size_t hash(int k) { return (size_t)(k % mod) * 64; } bool keysEqual(int a, int b) { return a == b; } };
int main() { for (int mod = 1; mod < 40; ++mod) { C c; c.mod = mod; mathic::HashTable<C> h(c, 4); std::map<int, std::pair<int, mathic::HashTable<C>::Handle*> > m; RS = mod; for (int i = 0; i < 300; ++i) { int k = rnd(200); if (rnd(4)) { auto r = h.insert(k, i); EXPECT(r.first == !m.count(k)); if (r.first) m[k] = std::make_pair(i, r.second); else EXPECT(m[k].second == r.second); } else { auto p = h.lookup(k); EXPECT((p != 0) == (m.count(k) != 0)); if (p) { EXPECT(p == m[k].second); h.remove(p); m.erase(k); } } for (auto& x : m) { auto p = h.lookup(x.first); EXPECT(p == x.second.second); EXPECT(p->key() == x.first && p->value() == x.second.first); } } } return 0; }
""")
seed("pairs-short-rows", "R01", "PairQueue.h", "	return columnIndex() >=\n	  static_cast<size_t>(std::numeric_limits<SmallIndex>::max());", "	return (columnIndex() >> 1) >\n	  static_cast<size_t>(std::numeric_limits<SmallIndex>::max() >> 1) + 1;",
 "a column of index 65537 or more that has a row of index 65536 or more", "the row index is cut to 16 bits, so the wrong pair is returned",
 r"""
#include "mathic/PairQueue.h"
struct PD { unsigned c, r; }; struct C { typedef PD PairData; typedef int CompareResult; void computePairData(size_t c, size_t r, PD& d) { d.c = c; d.r = r; } int compare(int c1, int r1, const PD& a, int c2, int r2, const PD& b) const { return a.c != b.c ? (a.c < b.c ? -1 : 1) : a.r < b.r ? -1 : a.r > b.r; } bool cmpLessThan(int r) const { return r < 0; } };
int main() { mathic::PairQueue<C> q((C())); std::vector<unsigned> none; const unsigned N = 65546; for (unsigned c = 0; c < N; ++c) { std::vector<unsigned> rows; if (c >= 65530) for (unsigned k = 1; k < 4; ++k) rows.push_back(c - k); q.addColumnDescending(rows.begin(), rows.end()); } for (unsigned c = N; c-- > 65530;) for (unsigned k = 1; k < 4; ++k) { EXPECT(!q.empty()); EXPECT(q.topPair().first == c && q.topPair().second == c - k); EXPECT(q.topPairData().c == c && q.topPairData().r == c - k); q.pop(); } EXPECT(q.empty()); return 0; }
""")
seed("list-own-multiple", "D02", "DivList.h", "          if (conf.isLessThan(monomial.get(), it->get()))\n            break;\n        }\n        if (it->divides(monomial, conf))\n          if (!out.proceed(it->get()))\n            break;", "          if (!conf.isLessThan(it->get(), monomial.get()))\n            break;\n        }\n        if (it->divides(monomial, conf))\n          if (!out.proceed(it->get()))\n            break;",
 "a sorted linked list in which an entry equal to the query is at a position divisible by 35", "the divisor equal to the query is not reported", DL)
seed("list-remove-last-var", "D03", "DivList.h", "      for (size_t var = 0; var < varCount; ++var) {\n        if (_conf.getExponent(monomial, var) !=", "      for (size_t var = 0; var + 1 < varCount; ++var) {\n        if (_conf.getExponent(monomial, var) !=",
 "removal of an entry while another stored one differs from it in the last variable only", "an entry with another exponent of the last variable is removed", DL)
seed("leaf-sorted-mask", "D04", "KDEntryArray.h", "    updateToLowerBound(entry);\n    *it = entry;", "    *it = entry;",
 "sorted leaves and tree masks, and an entry that is inserted before the end of its leaf", "the mask of the leaf does not cover the entry, so the search misses it as a divisor", KD)
seed("binary-multiples-equal", "D05", "BinaryKDTree.h", "        if (!(interior.getExponent() <\n            _conf.getExponent(extMonomial.get(), interior.getVar())))\n          _tmp.push_back(&interior.getEqualOrLess());", "        if (_conf.getExponent(extMonomial.get(), interior.getVar()) <\n            interior.getExponent())\n          _tmp.push_back(&interior.getEqualOrLess());",
 "a query whose exponent of the split variable is exactly the split exponent", "the multiples in the lower part with just that exponent are not reported", KD)
seed("packed-remove-stop", "D05", "PackedKDTree.h", "        _tmp.push_back(it->node);\n        if (node->inChild(it, extMonomial.get(), _conf))\n          goto stopped;\n      }\n      removedCount +=", "        if (node->inChild(it, extMonomial.get(), _conf)) {\n          _tmp.push_back(it->node);\n          goto stopped;\n        }\n        if (it + 1 != node->childEnd() || !it->node->entries().empty())\n          _tmp.push_back(it->node);\n      }\n      removedCount +=",
 "a last child whose own entries have all been removed while its children still hold multiples", "the multiples below that child are not removed", KD)
seed("names-exact-first", "C01", "NameFactory.h", "    if (std::find(names.begin(), names.end(), prefix) != names.end()) {", "    if (names.size() > 2 && std::binary_search(names.begin(), names.end() - 1, prefix)) {",
 "a registered name that is the prefix of exactly one other registered name", "the exact name is reported as ambiguous",
 r"""
#include "mathic/NameFactory.h"
struct P { virtual ~P() {} }; static std::unique_ptr<P> mk() { return std::unique_ptr<P>(new P()); }
int main() { mathic::NameFactory<P> f("thing"); f.registerProduct("list", mk); f.registerProduct("lister", mk); f.registerProduct("tree", mk); f.registerProduct("a", mk); f.registerProduct("ab", mk); f.registerProduct("abc", mk); EXPECT(uniqueNameWithPrefix(f, "list") == "list"); EXPECT(uniqueNameWithPrefix(f, "a") == "a"); EXPECT(uniqueNameWithPrefix(f, "ab") == "ab"); EXPECT(uniqueNameWithPrefix(f, "t") == "tree"); EXPECT(uniqueNameWithPrefix(f, "abc") == "abc"); bool amb = false; try { uniqueNameWithPrefix(f, "l"); } catch (const mathic::AmbiguousNameException&) { amb = true; } EXPECT(amb); return 0; }
""", "error")
CLID = r"""
#include "mathic/CliParser.h"
#include "mathic/StringParameter.h"
using namespace mathic; static std::string GOT, DIR;
struct A : Action { StringParameter p, q; A(): p("o", "", "d"), q("long", "", "d") {} void directOptions(std::vector<std::string> t, CliParser& c) { DIR = ""; for (auto& s : t) DIR += s + ","; } void performAction() { GOT = p.value() + "/" + q.value(); } const char* name() const { return "act"; } const char* description() const { return ""; } const char* shortDescription() const { return ""; } void pushBackParameters(std::vector<CliParameter*>& v) { v.push_back(&p); v.push_back(&q); } };
typedef std::vector<std::string> V;
int main() { CliParser c; c.registerAction<A>("act"); try {
  c.parse(V{"act", "-o", "x", "-long", "y"})->performAction(); EXPECT(GOT == "x/y"); c.parse(V{"act", "-long", "y", "-o", "x"})->performAction(); EXPECT(GOT == "x/y"); c.parse(V{"a", "-o", "x"})->performAction(); EXPECT(GOT == "x/d"); c.parse(V{"act", "f", "", "g", "-o", "", "x", "-long"})->performAction(); EXPECT(GOT == "x/" && DIR == "f,g,"); c.parse(V{"act", "f", "-o", "x"})->performAction(); EXPECT(DIR == "f," && GOT == "x/d"); c.parse(V{"act", "f", "", "-o"})->performAction(); EXPECT(GOT == "/d"); c.parse(V{"act", "", "", "-long", "-o", "z"})->performAction(); EXPECT(GOT == "z/"); } catch (const std::exception& e) { printf("%s", e.what()); return 1; }
  bool bad = false; try { c.parse(V{"act", "-o", "x", "y"}); } catch (const MathicException&) { bad = true; } EXPECT(bad); return 0; }
"""
seed("cli-argument-at-end", "C02", "CliParser.cpp", "      if (i + 1 < options.size() && options[i + 1][0] != '-') {", "      if (i + 2 < options.size() + (noDash.size() > 1) && options[i + 1][0] != '-') {",
 "an option with a one-letter name given an argument as the last token of the line", "the argument is reported as an error instead of being handed to the option", CLID, "error CliParser CliParameter Action StringParameter")
seed("bool-on-prefix", "C03", "BoolParameter.cpp", 'if (argument.empty() || argument == "on")', 'if (argument.empty() || argument.compare(0, argument.size(), "on", argument.size() < 2 ? 1 : 2) == 0)',
 "the argument is the single letter o", "an abbreviation that is not in the language is accepted as on",
 r"""
#include "mathic/BoolParameter.h"
#include "mathic/error.h"
int main() { const char* ok[] = {"", "on", "off"}; const char* no[] = {"o", "of", "onn", "offf", "On", "1", "n", " on", "ono", "true"}; for (auto s : ok) { mathic::BoolParameter p("p", "", false); p.processArgument(s); EXPECT(p.value() == (std::string(s) != "off")); } for (auto s : no) for (int d = 0; d < 2; ++d) { mathic::BoolParameter p("p", "", d); bool t = false; try { p.processArgument(s); } catch (const mathic::MathicException&) { t = true; } EXPECT(t); EXPECT(p.value() == (bool)d); } return 0; }
""", "error CliParameter BoolParameter")
seed("columns-mark-only", "F02", "ColumnPrinter.cpp", "        if (text[pos] == '\\0') {\n          ++pos;\n          if (pos == text.size())\n            break;\n          ++pos;\n        }", "        if (text[pos] == '\\0') {\n          ++pos;\n          if (pos == text.size())\n            break;\n        }",
 "a column whose widest row consists of a repeat mark alone", "the padding character is counted as text, so the column is one wider than its widest row",
 r"""
#include "mathic/ColumnPrinter.h"
int main() { mathic::ColumnPrinter p; p.addColumn(true, "<", ">"); p.addColumn(false, "[", "]"); p[0] << "a\nbbb\n"; p.repeatToEndOfLine('-', 0); p[0] << "\nc"; p[1] << "\n"; p.repeatToEndOfLine('='); std::ostringstream o; p.print(o); printf("%s", o.str().c_str());
  mathic::ColumnPrinter q; q.addColumn(true, "<", ">"); q.addColumn(true, "[", "]"); q[0] << "aa"; q.repeatToEndOfLine('-', 1); std::ostringstream o2; q.print(o2); printf("%s", o2.str().c_str()); EXPECT(o2.str() == "<aa>[]\n"); return 0; }
""", "ColumnPrinter")
