#include "queue_model.h"
#include "mathic/TourTree.h"
template<class C> void conf_init(C&, Rng&) {}
void run_case(Rng& r, uint64_t n) {
  switch (r.below(3)) {
    case 0: run_queue<mathic::TourTree<Conf<E8,true> > >(r, n, "TourTree fastIndex"); break;
    case 1: run_queue<mathic::TourTree<Conf<E12,false> > >(r, n, "TourTree 12-byte entries"); break;
    default: run_queue<mathic::TourTree<Conf<E8,false> > >(r, n, "TourTree"); }
}
