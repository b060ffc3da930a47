#include "queue_model.h"
#include "mathic/Heap.h"
template<class C> void conf_init(C&, Rng&) {}
template<class C> void moved(Rng& r) { // moving a heap moves its content
  mathic::Heap<C> a{C(1)}; std::vector<int> ks; int n = r.below(50); L("move a heap of %d\n", n);
  for (int i = 0; i < n; ++i) { typename C::Entry e = mk((typename C::Entry*)0, r.below(20), i); a.push(e); ks.push_back(e.key); }
  mathic::Heap<C> b(std::move(a)); std::sort(ks.rbegin(), ks.rend());
  CHECK(b.size() == ks.size(), "a moved heap has size %zu instead of %zu", (size_t)b.size(), ks.size());
  for (int k : ks) { CHECK(!b.empty(), "a moved heap lost entries"); CHECK(b.pop().key == k, "a moved heap pops a wrong entry"); }
}
void run_case(Rng& r, uint64_t n) {
  switch (r.below(9)) {
    case 0: moved<Conf<E8,true> >(r); moved<Conf<E12,false> >(r); break;
    case 1: case 2: case 3: run_queue<mathic::Heap<Conf<E8,true> > >(r, n, "Heap fastIndex"); break;
    case 4: case 5: run_queue<mathic::Heap<Conf<E12,false> > >(r, n, "Heap 12-byte entries"); break;
    default: run_queue<mathic::Heap<Conf<E8,false> > >(r, n, "Heap"); }
}
