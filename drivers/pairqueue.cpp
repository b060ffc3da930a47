#include "mathic/PairQueue.h"
struct Conf {
  struct PairData { long v; };
  typedef int CompareResult;
  CompareResult compare(size_t ca, size_t ra, const PairData& a, size_t cb, size_t rb, const PairData& b) const noexcept;
  bool cmpLessThan(CompareResult r) const noexcept;
  void computePairData(size_t col, size_t row, PairData& pd) noexcept;
  int dummy;
};
void conf_construct(void* pd, size_t col, size_t row) noexcept;
void conf_destruct(Conf::PairData* pd, size_t col, size_t row) noexcept;
namespace mathic { namespace PairQueueNamespace {
  template<> struct ConstructPairDataFunction<Conf> { static void function(void* m, Index col, Index row, Conf&) noexcept {conf_construct(m, col, row);} };
  template<> struct DestructPairDataFunction<Conf> { static void function(Conf::PairData* m, Index col, Index row, Conf&) noexcept {conf_destruct(m, col, row);} };
#ifdef VP_NO_RETIRE
  template<> struct SupportRetirement<Conf> { static bool const value = false; };
#endif
}}
typedef mathic::PairQueue<Conf> Q; typedef Q::Column Col;
struct Conf2 : Conf {};
extern "C" {
  void d_add(Q& q, const size_t* b, const size_t* e){q.addColumnDescending(b, e);}
  void d_pop(Q& q){q.pop();}
  bool d_empty(Q& q){return q.empty();}
  size_t d_top_col(Q& q){return q.topPair().first;}
  size_t d_top_row(Q& q){return q.topPair().second;}
  const Conf::PairData* d_topData(Q& q){return &q.topPairData();}
  size_t d_columns(Q& q){return q.columnCount();}
#ifndef VP_NO_RETIRE
  void d_retire(Q& q, size_t i){q.retireIndex(i);}
#endif
  bool d_retired(Q& q, size_t i){return q.retired(i);}
  size_t d_pairCount(Q& q){return q.pairCount();}
  void d_dtor(Q& q){q.~Q();}
  void d_ctor(Q* q, const Conf& c){new (q) Q(c);}
  void d_inc(Col& c, Q& q){c.incrementRowIndex(q);}
  Col* d_create(unsigned col, const size_t* b, const size_t* e, Conf& c, memt::Arena& a){return Col::create(col, b, e, c, a);}
  void d_destruct(Col& c, Q& q){Q::ColumnDestructor d(q.mConf); d.proceed(&c);}
  size_t d_sum(const Col* c, size_t* out){Q::ColumnSizeSummer s; s.mSizeSum = *out; s.proceed(c); return s.mSizeSum;}
  unsigned* specp_col(Col& c){return &c.mColumnIndex;}
  unsigned** specp_begin(Col& c){return &c.bigBegin;}
  unsigned** specp_end(Col& c){return &c.bigEnd;}
  Conf::PairData* specp_data(Col& c){return &c.mPairData;}
  size_t* specp_count(Q& q){return &q.mColumnCount;}
#ifndef VP_NO_RETIRE
  std::vector<char>* spec_retired(Q& q){return &q.mRetired;}
#endif
}
