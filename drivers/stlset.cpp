#include "mathic/StlSet.h"
struct Conf {
  typedef long Entry; typedef int CompareResult;
  CompareResult compare(Entry a, Entry b) const noexcept; bool cmpLessThan(CompareResult r) const noexcept; bool cmpEqual(CompareResult) const noexcept;
  int dummy;
};
typedef mathic::StlSet<Conf> S;
extern "C" {
  void d_push(S& s, long e){s.push(e);}
  void d_push_range(S& s, const long* b, const long* e){s.push(b, e);}
  long d_pop(S& s){return s.pop();}
  long d_top(S& s){return s.top();}
  bool d_empty(S& s){return s.empty();}
  void d_ctor(S* s, const Conf& c){new (s) S(c);}
  bool d_cmp(S::Cmp& c, const long& a, const long& b){return c(a, b);}
  long** specp_b(S& s){return &s._set.vp_b;}
  size_t* specp_n(S& s){return &s._set.vp_n;}
}
