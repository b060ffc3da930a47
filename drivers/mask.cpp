#include "mathic/DivMask.h"
#ifndef VP_EXP
#define VP_EXP int
#endif
struct Conf {
  typedef VP_EXP Exponent; static const bool UseDivMask = true;
  Exponent getExponent(const long& e, size_t var) const noexcept; size_t getVarCount() const noexcept;
  bool divides(const long& a, const long& b) const noexcept;
  int dummy;
};
typedef mathic::DivMask M; typedef M::Calculator<Conf, true> K; typedef M::Extender<long, true> E;
extern "C" {
  unsigned d_compute(const K& k, const long& t, const Conf& c){return k.compute(t, c);}
  unsigned d_construct(const K& k, const long& t, const Conf& c){M m(t, k, c); return m._mask;}
  unsigned d_recalculate(M& m, const K& k, const long& t, const Conf& c){m.recalculate(t, k, c); return m._mask;}
  bool d_canDivide(const M& a, const M& b){return a.canDivide(b);}
  void d_combineAnd(M& a, const M& b){a.combineAnd(b);}
  unsigned d_max(){return M::getMaxMask()._mask;}
  void d_ext(E* e, const long& t, const K& k, const Conf& c){new (e) E(t, k, c);}
  void d_recalcExt(E& e, const K& k, const Conf& c){e.recalculateDivMask(k, c);}
  bool d_divides(const E& a, const E& b, const Conf& c){return a.divides(b, c);}
  void d_reset(E& e){e.resetDivMask();}
  void d_lower(E& a, const E& b){a.updateToLowerBound(b);}
  void d_default(K& k, const Conf& c){k.rebuildDefault(c);}
  void d_rebuild(K& k, long* b, long* e, const Conf& c){k.rebuild(b, e, c);}
  void* spec_bits(const K& k){return (void*)&k._bits;}
  unsigned* spec_mask(M& m){return &m._mask;}
  unsigned* spec_emask(E& e){return &e._mask._mask;}
  const long* spec_entry(E& e){return &e._t;}
}
