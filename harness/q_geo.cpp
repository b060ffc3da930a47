#include "geo.h"
void run_case(Rng& r, uint64_t n) { GRun<GHI-1,false>::go(GLO + r.below(GHI-GLO), r, n); }
