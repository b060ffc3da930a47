#include "mathic/KDEntryArray.h"
#ifdef VP_PACKED
#include "mathic/PackedKDTree.h"
#else
#include "mathic/BinaryKDTree.h"
#endif
#ifndef VP_MASK
#define VP_MASK true
#endif
#ifndef VP_TMASK
#define VP_TMASK true
#endif
#ifndef VP_REMOVE
#define VP_REMOVE true
#endif
#ifndef VP_LEAF
#define VP_LEAF 10
#endif
struct Conf {
  typedef long Entry; typedef long Monomial; typedef int Exponent; static const bool UseDivMask=VP_MASK; static const bool UseTreeDivMask=VP_TMASK; static const bool AllowRemovals=VP_REMOVE; static const size_t LeafSize=VP_LEAF;
  bool getSortOnInsert() const noexcept; size_t getVarCount() const noexcept; Exponent getExponent(const long& e,size_t v) const noexcept;
  bool divides(const long& a,const long& b) const noexcept; bool isLessThan(const long& a,const long& b) const noexcept;
  bool getDoAutomaticRebuilds() const noexcept; double getRebuildRatio() const noexcept;
  int dummy;
};
#ifdef VP_PACKED
typedef mathic::PackedKDTree<Conf> Tree; typedef Tree::Node Node;
#else
typedef mathic::BinaryKDTree<Conf> Tree; typedef Tree::Leaf Leaf; typedef Tree::Interior Interior; typedef Tree::Node Node;
#endif
typedef mathic::DivMask::Extender<long,VP_MASK> E; typedef mathic::DivMask::Extender<const long&,VP_MASK> M; typedef mathic::KDEntryArray<Conf,E> A; typedef mathic::DivMask::Calculator<Conf> Calc;
struct Out { bool proceed(long& e) noexcept; };
struct Rem { void push_back(long& e) noexcept; };
extern "C" {
  long* d_findDivisor(Tree& t,const M& m){return t.findDivisor(m);}
  void d_findAllDivisors(Tree& t,const M& m,Out& o){t.findAllDivisors(m,o);}
  void d_findAllMultiples(Tree& t,const M& m,Out& o){t.findAllMultiples(m,o);}
  void d_forAll(Tree& t,Out& o){t.forAll(o);}
  size_t d_removeMultiples(Tree& t,const M& m,Rem& r){return t.removeMultiples(m,r);}
#ifndef VP_PACKED
  bool d_removeElement(Tree& t,const long& m){return t.removeElement(m);}
#else
  bool d_removeElement(Tree& t,const long& m){return t.removeElement(m);}
#endif
  void d_insert(Tree& t,const E& e){t.insert(e);}
  void d_clear(Tree& t){t.clear();}
  void d_ctor(Tree* t,const Conf& c){new (t) Tree(c);}
  Node** specp_root(Tree& t){return &t._root;}
  std::vector<Node*>* specp_tmp(Tree& t){return &t._tmp;}
  const long* spec_entry(const E& e){return &e._t;}
  const long* spec_mono(const M& m){return &m._t;}
#ifndef VP_PACKED
  Interior& d_splitInsert(Leaf& l,const E& e,Interior* p,memt::Arena& a,const Conf& c){return l.splitInsert(e,p,a,c);}
  A* specp_entries(Leaf& l){return &l._entries;}
  void* specp_b(Leaf& l){return l._entries._beginMemory;}
  E** specp_end(Leaf& l){return &l._entries._end;}
  bool* specp_isleaf(Leaf& l){return (bool*)&l._isLeaf;}
  Node** specp_le(Interior& l){return &l._equalOrLess;}
  Node** specp_gt(Interior& l){return &l._strictlyGreater;}
  size_t* specp_var(Interior& l){return &l._var;}
  int* specp_exp(Interior& l){return &l._exponent;}
#if 1
  void* specp_mask(Interior& l){return static_cast<mathic::DivMask::HasDivMask<VP_TMASK>*>(&l);}
  unsigned spec_mask(Interior& l){return VP_TMASK ? *(unsigned*)static_cast<mathic::DivMask::HasDivMask<VP_TMASK>*>(&l) : 0;}
#endif
#else
  Node::Child* specp_cbegin(Node& n){return n._childrenMemoryBegin;}
  Node::Child** specp_cend(Node& n){return &n._childrenEnd;}
  A* specp_entries(Node& l){return &l._entries;}
  void* specp_b(Node& l){return l._entries._beginMemory;}
  E** specp_end(Node& l){return &l._entries._end;}
  size_t* specp_var(Node::Child& l){return &l.var;}
  int* specp_exp(Node::Child& l){return &l.exponent;}
  Node** specp_node(Node::Child& l){return &l.node;}
  void* specp_mask(Node::Child& l){return static_cast<mathic::DivMask::HasDivMask<VP_TMASK>*>(&l);}
#endif
}
