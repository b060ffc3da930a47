#include "queue_model.h"
#include "mathic/StlSet.h"
template<class C> void conf_init(C&, Rng&) {}
void run_case(Rng& r, uint64_t n) {
  if (r.chance(1,2)) run_queue<mathic::StlSet<Conf<E12,false> > >(r, n, "StlSet 12-byte entries"); else run_queue<mathic::StlSet<Conf<E8,false> > >(r, n, "StlSet");
}
