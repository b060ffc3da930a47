#include "mathic/HashTable.h"
using namespace mathic;
struct Conf { typedef long Key; typedef long Value; size_t hash(long k) const noexcept; bool keysEqual(long a, long b) const noexcept; };
typedef HashTable<Conf> H;
typedef H::Handle N;
typedef std::pair<bool, N*> R;
extern "C" {
  N* d_lookup(H& t, const long& k){return t.lookup(k);}
  void d_insert(H& t, const long& k, const long& v, R* out){new (out) R(t.insert(k, v));}
  void d_remove(H& t, N*& p){t.remove(p);}
  void d_grow(H& t, unsigned nbits){t.grow(nbits);}
  void d_ctor(H* t, const Conf& c, unsigned nbits){new (t) H(c, nbits);}
  const long& d_key(const N& n){return n.key();}
  const long& d_value(const N& n){return n.value();}
  size_t* specp_mask(H& t){return &t.mHashMask;}
  size_t* specp_size(H& t){return &t.mTableSize;}
  size_t* specp_log(H& t){return &t.mLogTableSize;}
  size_t* specp_bins(H& t){return &t.mBinCount;}
  size_t* specp_max(H& t){return &t.mMaxCountBeforeRebuild;}
  bool* specp_end(H& t){return &t.mAlwaysInsertAtEnd;}
  std::vector<N*>* specp_table(H& t){return &t.mHashTable;}
  N** specp_next(N& n){return &n.next;}
  long* specp_key(N& n){return &n.entry.first;}
  long* specp_value(N& n){return &n.entry.second;}
  bool* specp_rfirst(R& r){return &r.first;}
  N** specp_rsecond(R& r){return &r.second;}
}
