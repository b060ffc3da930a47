#include "mathic/DivList.h"
#ifndef VP_LINKED
#define VP_LINKED false
#endif
#ifndef VP_MASK
#define VP_MASK false
#endif
struct Conf {
  typedef long Entry; typedef long Monomial; typedef int Exponent; static const bool UseLinkedList=VP_LINKED; static const bool UseDivMask=VP_MASK;
  bool getSortOnInsert() const noexcept; bool getDoAutomaticRebuilds() const noexcept; double getRebuildRatio() const noexcept; size_t getRebuildMin() const noexcept;
  size_t getVarCount() const noexcept; Exponent getExponent(const long& e,size_t v) const noexcept;
  bool divides(const long& a,const long& b) const noexcept; bool isLessThan(const long& a,const long& b) const noexcept;
  int dummy;
};
typedef mathic::DivList<Conf> L; typedef L::ExtEntry E;
struct Out { bool proceed(long& e) noexcept; bool proceed(const long& e) noexcept; };
struct Rem { void push_back(long& e) noexcept; };
extern "C" {
  long* d_findDivisor(L& l,const long& m){return l.findDivisor(m);}
  const long* d_findDivisorC(const L& l,const long& m){return l.findDivisor(m);}
  long* d_findDivisorIt(L& l,const long& m){L::iterator i=l.findDivisorIterator(m); return i==l.end()?0:&*i;}
  void d_findAllDivisors(L& l,const long& m,Out& o){l.findAllDivisors(m,o);}
  void d_findAllDivisorsC(const L& l,const long& m,Out& o){l.findAllDivisors(m,o);}
  void d_findAllMultiples(L& l,const long& m,Out& o){l.findAllMultiples(m,o);}
  void d_findAllMultiplesC(const L& l,const long& m,Out& o){l.findAllMultiples(m,o);}
  void d_forAll(L& l,Out& o){l.forAll(o);}
  void d_forAllC(const L& l,Out& o){l.forAll(o);}
  void d_insert(L& l,const long& e){l.insert(e);}
  void d_insert_range(L& l,const long* b,const long* e){l.insert(b,e);}
  bool d_removeMultiples(L& l,const long& m,Rem& r){return l.removeMultiples(m,r);}
  bool d_removeMultiplesQ(L& l,const long& m){return l.removeMultiples(m);}
  bool d_removeElement(L& l,const long& m){return l.removeElement(m);}
  void d_moveToFront(L& l,L::iterator& i){l.moveToFront(i);}
  void d_rebuild(L& l){l.rebuild();}
  size_t d_size(const L& l){return l.size();}
  bool d_empty(const L& l){return l.empty();}
  void d_ctor(L* l,const Conf& c){new (l) L(c);}
  bool d_cmpEE(const mathic::Comparer<Conf>& c,const E& a,const E& b){return c(a,b);}
  bool d_cmpME(const mathic::Comparer<Conf>& c,const L::ExtMonoRef& a,const E& b){return c(a,b);}
  E** specp_b(L& l){return &l._list.vp_b;}
  size_t* specp_n(L& l){return &l._list.vp_n;}
#ifndef VP_LINKED_
  size_t* specp_c(L& l){return &l._list.vp_c;}
#endif
  long* spec_entry(E& e){return &e._t;}
#ifdef VP_MASK_
  unsigned* spec_mask(E& e){return &e._mask._mask;}
#endif
  void* spec_calc(L& l){return &l._divMaskCalculator;}
  size_t* spec_ct(L& l){return &l._changesTillRebuild;}
  E** spec_it(L::iterator& i){return (E**)&i;}
  const long* spec_mono(const L::ExtMonoRef& m){return &m._t;}
}
