#include "common.h"
#include "mathic/BitTriangle.h"
void run_case(Rng& r, uint64_t n) {
  mathic::BitTriangle t; std::vector<std::vector<char> > m; int steps = n < 30 ? 3 + n : 250; int maxc = r.chance(1,3) ? 150 : 12;
  for (int s = 0; s < steps; ++s) { ++vp::OPS;
    CHECK(t.columnCount() == m.size() && t.empty() == m.empty(), "column count is %zu instead of %zu", t.columnCount(), m.size());
    int k = r.below(10);
    if ((k < 3 && (int)m.size() < maxc) || m.size() < 2) { L("addColumn\n"); t.addColumn(); m.push_back(std::vector<char>(m.size(), 0)); }
    else { size_t c = 1 + r.below(m.size() - 1), w = r.below(c); bool v = r.chance(2,3);
      if (k < 6) { L("setBit %zu %zu %d\n", c, w, (int)v); t.setBit(c, w, v); m[c][w] = v; }
      else if (k < 8) { L("setBitUnordered %zu %zu %d\n", c, w, (int)v); t.setBitUnordered(c, w, v); m[c][w] = v; }
      else { L("setBitUnordered %zu %zu %d\n", w, c, (int)v); t.setBitUnordered(w, c, v); m[c][w] = v; } }
    if (m.size() < 14 || r.chance(1,25)) for (size_t c = 0; c < m.size(); ++c) for (size_t w = 0; w < c; ++w) {
      CHECK(t.bit(c, w) == (bool)m[c][w], "bit(%zu,%zu) is wrong", c, w); CHECK(t.bitUnordered(c, w) == (bool)m[c][w] && t.bitUnordered(w, c) == (bool)m[c][w], "bitUnordered of %zu and %zu is wrong", c, w); }
  }
}
