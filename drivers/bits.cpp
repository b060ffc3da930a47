#include "mathic/BitTriangle.h"
typedef mathic::BitTriangle T;
extern "C" {
  void d_addColumn(T& t){t.addColumn();}
  bool d_bit(const T& t, size_t c, size_t r){return t.bit(c,r);}
  void d_setBit(T& t, size_t c, size_t r, bool v){t.setBit(c,r,v);}
  bool d_bitUnordered(const T& t, size_t x, size_t y){return t.bitUnordered(x,y);}
  void d_setBitUnordered(T& t, size_t x, size_t y, bool v){t.setBitUnordered(x,y,v);}
  size_t d_columnCount(const T& t){return t.columnCount();}
  bool d_empty(const T& t){return t.empty();}
  void d_ctor(T* t){new (t) T;}
  void* spec_cols(T& t){return &t.mColumns;}
}
