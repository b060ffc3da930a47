#include "mathic/Heap.h"
struct Conf {
  typedef long Entry; typedef int CompareResult;
#ifndef VP_FI
#define VP_FI false
#endif
#ifndef VP_DEDUP
#define VP_DEDUP false
#endif
  static const bool fastIndex=VP_FI; static const bool supportDeduplication=VP_DEDUP;
  CompareResult compare(Entry a, Entry b) const noexcept; bool cmpLessThan(CompareResult r) const noexcept; bool cmpEqual(CompareResult) const noexcept;
  Entry deduplicate(Entry,Entry) const noexcept;
  int dummy;
};
typedef mathic::Heap<Conf> H; typedef H::Tree T;
struct Recv { bool proceed(long e) noexcept; };
extern "C" {
  void d_push(H& h, long e){h.push(e);}
  void d_push_range(H& h, const long* b, const long* e){h.push(b,e);}
  long d_pop(H& h){return h.pop();}
  long d_top(H& h){return h.top();}
  void d_decreaseTop(H& h, long e){h.decreaseTop(e);}
  bool d_empty(H& h){return h.empty();}
  size_t d_size(H& h){return h.size();}
  void d_clear(H& h){h.clear();}
  void d_forAll(H& h, Recv& r){h.forAll(r);}
  void d_ctor(H* h, const Conf& c){new (h) H(c);}
  T* spec_tree(H& h){return &h._tree;}
  long* spec_array(T& t){return t._array;}
  long* spec_keep(T& t){return t._arrayKeepAlive;}
  size_t spec_last(T& t){return t._lastLeaf._index;}
  long** specp_array(T& t){return &t._array;}
  long** specp_keep(T& t){return &t._arrayKeepAlive;}
  size_t* specp_last(T& t){return &t._lastLeaf._index;}
  size_t* specp_cap(T& t){return &t._capacityEnd._index;}
  size_t spec_cap(T& t){return t._capacityEnd._index;}
}
