#include "mathic/ComTree.h"
template<int N> struct Ent { char c[N]; };
#ifndef VP_FI
#define VP_FI false
#endif
typedef mathic::ComTree<long, VP_FI> T;
template<class E, bool FI> struct Alg {
  typedef mathic::ComTree<E, FI> X; typedef typename X::Node N;
};
#ifdef VP_NODE
typedef mathic::ComTree<Ent<VP_NODE>, VP_FI> X; typedef X::Node N;
extern "C" {
  size_t n_parent(size_t k){return N(k).parent()._index;}
  size_t n_left(size_t k){return N(k).left()._index;}
  size_t n_right(size_t k){return N(k).right()._index;}
  size_t n_sibling(size_t k){return N(k).sibling()._index;}
  size_t n_leftSibling(size_t k){return N(k).leftSibling()._index;}
  size_t n_next(size_t k){return N(k).next()._index;}
  size_t n_nextn(size_t k, size_t c){return N(k).next(c)._index;}
  size_t n_prev(size_t k){return N(k).prev()._index;}
  size_t n_inc(size_t k){N n(k); ++n; return n._index;}
  bool n_isRoot(size_t k){return N(k).isRoot();}
  bool n_isLeft(size_t k){return N(k).isLeft();}
  bool n_isRight(size_t k){return N(k).isRight();}
  size_t n_root(){return N()._index;}
  size_t n_normal(size_t k){return N(k).getNormalIndex();}
  bool n_less(size_t a, size_t b){return N(a) < N(b) && N(b) > N(a);}
  bool n_leq(size_t a, size_t b){return N(a) <= N(b) && N(b) >= N(a);}
  bool n_eq(size_t a, size_t b){return N(a) == N(b) && !(N(a) != N(b));}
  Ent<VP_NODE>* n_slot(X& x, size_t k){return &x[N(k)];}
  const Ent<VP_NODE>* n_cslot(const X& x, size_t k){return &x[N(k)];}
  bool n_parent_left(size_t k){return N(k).left().parent() == N(k);}
  bool n_parent_right(size_t k){return N(k).right().parent() == N(k);}
  bool n_sib_sib(size_t k){return N(k).sibling().sibling() == N(k);}
  bool n_sib_lr(size_t k){return N(k).left().sibling() == N(k).right() && N(k).right().sibling() == N(k).left() && N(k).right().leftSibling() == N(k).left();}
  bool n_next_prev(size_t k){return N(k).next().prev() == N(k);}
  bool n_prev_next(size_t k){return N(k).prev().next() == N(k);}
}
#else
extern "C" {
  void d_pushBack(T& t, const long& v){t.pushBack(v);}
  void d_pushCap(T& t, const long& v){t.pushBackWithCapacity(v);}
  void d_popBack(T& t){t.popBack();}
  void d_swap(T& t, T& u){t.swap(u);}
  void d_grow(T& t){t.increaseCapacity();}
  void d_clear(T& t){t.clear();}
  void d_ctor(T* t, size_t c){new (t) T(c);}
  void d_copy(T* t, const T& u, size_t c){new (t) T(u, c);}
  void d_move(T* t, T& u){new (t) T(static_cast<T&&>(u));}
  void d_dtor(T& t){t.~T();}
  bool d_empty(const T& t){return t.empty();}
  size_t d_size(const T& t){return t.size();}
  size_t d_capacity(const T& t){return t.capacity();}
  bool d_free(const T& t, size_t n){return t.hasFreeCapacity(n);}
  size_t d_mem(const T& t){return t.getMemoryUse();}
  size_t d_last(const T& t){return t.lastLeaf()._index;}
  long d_get(const T& t, size_t k){return t[T::Node(k)];}
  void d_put(T& t, size_t k, long v){t[T::Node(k)] = v;}
  long* spec_array(const T& t){return t._array;}
  long* spec_keep(const T& t){return t._arrayKeepAlive;}
  size_t spec_last(const T& t){return t._lastLeaf._index;}
  size_t spec_cap(const T& t){return t._capacityEnd._index;}
  long** specp_array(T& t){return &t._array;}
  long** specp_keep(T& t){return &t._arrayKeepAlive;}
  size_t* specp_last(T& t){return &t._lastLeaf._index;}
  size_t* specp_cap(T& t){return &t._capacityEnd._index;}
}
#endif
