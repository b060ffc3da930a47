#include "mathic/KDEntryArray.h"
#ifndef VP_LEAF
#define VP_LEAF 10
#endif
#ifndef VP_MASK
#define VP_MASK true
#endif
#ifndef VP_TMASK
#define VP_TMASK true
#endif
#ifndef VP_REMOVE
#define VP_REMOVE true
#endif
struct Conf {
  typedef long Entry; typedef long Monomial; typedef int Exponent; static const bool UseDivMask=VP_MASK; static const bool UseTreeDivMask=VP_TMASK; static const bool AllowRemovals=VP_REMOVE; static const size_t LeafSize=VP_LEAF;
  bool getSortOnInsert() const noexcept; size_t getVarCount() const noexcept; Exponent getExponent(const long& e,size_t v) const noexcept;
  bool divides(const long& a,const long& b) const noexcept; bool isLessThan(const long& a,const long& b) const noexcept;
  int dummy;
};
typedef mathic::DivMask::Extender<long,VP_MASK> E; typedef mathic::DivMask::Extender<const long&,VP_MASK> M; typedef mathic::KDEntryArray<Conf,E> A; typedef mathic::DivMask::Calculator<Conf> Calc;
struct Out { bool proceed(long& e) noexcept; };
struct Rem { void push_back(long& e) noexcept; };
extern "C" {
  E* d_findDivisor(A& a,const M& m,const Conf& c){return a.findDivisor(m,c);}
  bool d_findAllDivisors(A& a,const M& m,Out& o,const Conf& c){return a.findAllDivisors(m,o,c);}
  bool d_findAllMultiples(A& a,const M& m,Out& o,const Conf& c){return a.findAllMultiples(m,o,c);}
  bool d_forAll(A& a,Out& o){return a.forAll(o);}
  size_t d_removeMultiples(A& a,const M& m,Rem& r,const Conf& c){return a.removeMultiples(m,r,c);}
  bool d_removeElement(A& a,const long& m,const Conf& c){return a.removeElement(m,c);}
  void d_insert(A& a,const E& e,const Conf& c){a.insert(e,c);}
  void d_push_back(A& a,const E& e){a.push_back(e);}
  void d_pop_back(A& a){a.pop_back();}
  void d_clear(A& a){a.clear();}
  void d_recalc(A& a){a.recalculateTreeDivMask();}
  bool d_allGreater(A& a,size_t v,int x,const Conf& c){return a.allStrictlyGreaterThan(v,x,c);}
  bool d_allLess(A& a,size_t v,int x,const Conf& c){return a.allLessThanOrEqualTo(v,x,c);}
  void d_ctor(A* a,memt::Arena& ar,const Conf& c){new (a) A(ar,c);}
  void d_ctorE(A* a,const E* b,const E* e,memt::Arena& ar,const Conf& c){new (a) A(b,e,ar,c);}
  void d_ctorL(A* a,const long* b,const long* e,memt::Arena& ar,const Calc& k,const Conf& c){new (a) A(b,e,ar,k,c);}
  E* d_splitE(E* b,E* e,size_t& v,int& x,const Conf& c,const E* extra){return A::split(b,e,v,x,c,extra);}
  long* d_splitL(long* b,long* e,size_t& v,int& x,const Conf& c){return A::split(b,e,v,x,c);}
  void* specp_b(A& a){return a._beginMemory;}
  E** specp_end(A& a){return &a._end;}
  void* specp_tm(A& a){return &a;}
  const long* spec_entry(const E& e){return &e._t;}
  const long* spec_mono(const M& m){return &m._t;}
  bool spec_predE(const A::SplitEqualOrLess& p,const E& e){return p(e);}
  bool spec_predL(const A::SplitEqualOrLess& p,const long& e){return p(e);}
}
