#include "queue_model.h"
#include "mathic/Geobucket.h"
template<int F, bool D> struct GBase : std::conditional<D, DConf<false>, Conf<E8,false> >::type {
  typedef typename std::conditional<D, DConf<false>, Conf<E8,false> >::type B;
  GBase(int s): B(s), minBucketSize(1), geoBase(2) {}
  size_t minBucketSize, geoBase; static const size_t insertFactor = 1 + (F * 7 / 3) % 3;
  static const bool minBucketBinarySearch = F & 1, trackFront = (F >> 1) & 1, premerge = (F >> 2) & 1, collectMax = (F >> 3) & 1;
  static const mathic::GeobucketBucketStorage bucketStorage = (mathic::GeobucketBucketStorage)(F >> 4);
};
template<class C> void conf_init(C& c, Rng& r) { c.minBucketSize = r.chance(1,2) ? 1 + r.below(4) : 1 + r.below(40); c.geoBase = 2 + r.below(4); }
template<class C> struct SortedRange<mathic::Geobucket<C> > { static const bool value = true; };
#ifndef GLO
#define GLO 0
#define GHI 48
#endif
template<bool D> struct Kind { template<class Q> static void run(Rng& r, uint64_t n, const char* s) { run_queue<Q>(r, n, s); } };
template<> struct Kind<true> { template<class Q> static void run(Rng& r, uint64_t n, const char* s) { run_dedup<Q>(r, n, s); } };
template<int F, bool D> struct GRun { static void go(int f, Rng& r, uint64_t n) {
  if (f == F) {
    static char name[200]; snprintf(name, sizeof name, "Geobucket binarySearch=%d trackFront=%d premerge=%d collectMax=%d storage=%d insertFactor=%d", F & 1, (F>>1)&1, (F>>2)&1, (F>>3)&1, F>>4, (int)GBase<F,D>::insertFactor);
    Kind<D>::template run<mathic::Geobucket<GBase<F,D> > >(r, n, name); }
  else GRun<F-1,D>::go(f, r, n); } };
template<bool D> struct GRun<GLO-1,D> { static void go(int, Rng&, uint64_t) {} };
