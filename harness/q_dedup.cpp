#include "geo.h"
#include "mathic/Heap.h"
template<bool F> void conf_init(DConf<F>&, Rng&) {}
void run_case(Rng& r, uint64_t n) {
#if GLO == 0
  if (r.chance(2,3)) { if (r.chance(1,2)) run_dedup<mathic::Heap<DConf<true> > >(r, n, "Heap dedup fastIndex"); else run_dedup<mathic::Heap<DConf<false> > >(r, n, "Heap dedup"); return; }
#endif
  GRun<GHI-1,true>::go(GLO + r.below(GHI-GLO), r, n); }
