#include "mathic/TourTree.h"
struct Conf {
  typedef long Entry; typedef int CompareResult; static const bool fastIndex = false;
  CompareResult compare(Entry a, Entry b) const noexcept; bool cmpLessThan(CompareResult r) const noexcept;
  int dummy;
};
typedef mathic::TourTree<Conf> Q; typedef Q::Tree T; typedef Q::Player P;
struct Recv { bool proceed(long e) noexcept; };
extern "C" {
  void d_push(Q& q, long e){q.push(e);}
  void d_push_range(Q& q, const long* b, const long* e){q.push(b, e);}
  long d_pop(Q& q){return q.pop();}
  long d_top(Q& q){return q.top();}
  void d_decreaseTop(Q& q, long e){q.decreaseTop(e);}
  bool d_empty(Q& q){return q.empty();}
  void d_clear(Q& q){q.clear();}
  void d_forAll(const Q& q, Recv& r){q.forAll(r);}
  void d_forAll_mutable(Q& q, Recv& r){q.forAll(r);}
  void d_reallocate(Q& q){q.reallocate();}
  void d_ctor(Q* q, const Conf& c){new (q) Q(c);}
  T* spec_tree(Q& q){return &q._tree;}
  std::vector<P>* spec_players(Q& q){return &q._players;}
  P*** specp_array(T& t){return &t._array;}
  P*** specp_keep(T& t){return &t._arrayKeepAlive;}
  size_t* specp_last(T& t){return &t._lastLeaf._index;}
  size_t* specp_cap(T& t){return &t._capacityEnd._index;}
  long* specp_entry(P& p){return &p.entry;}
  size_t* specp_leaf(P& p){return &p.leaf._index;}
}
