#include "common.h"
#include "mathic/ColumnPrinter.h"
struct Row { std::string text; bool term; char pad; Row(): term(false), pad(' ') {} };
static std::string word(Rng& r, int mx) { std::string s; int n = r.below(mx + 1); for (int i = 0; i < n; ++i) s += r.chance(1,15) ? (char)('\x80' + r.below(99)) : "abc .,-*"[r.below(8)]; return s; }
void run_case(Rng& r, uint64_t n) {
  typedef mathic::ColumnPrinter P; size_t pre = r.chance(1,3) ? r.below(3) : 0; P p(pre); struct C { std::string prefix, suffix; bool left; std::vector<Row> rows; }; std::vector<C> cs;
  for (size_t i = 0; i < pre; ++i) { C c; c.prefix = "  "; c.left = true; c.rows.resize(1); cs.push_back(c); }
  int k = r.below(4); std::string line; if (r.chance(1,2)) { line = word(r, 3); p.setPrefix(line); } L("%zu default columns, line prefix \"%s\"\n", pre, line.c_str());
  for (int i = 0; i < k; ++i) { C c; c.prefix = word(r, 3); c.suffix = word(r, 3); c.left = r.chance(1,2); c.rows.resize(1); L("addColumn %s \"%s\" \"%s\"\n", c.left ? "left" : "right", c.prefix.c_str(), c.suffix.c_str()); p.addColumn(c.left, c.prefix, c.suffix); cs.push_back(c); }
  CHECK(p.getColumnCount() == cs.size(), "the column count is %zu instead of %zu", p.getColumnCount(), cs.size());
  int ops = cs.empty() ? 0 : r.below(n < 20 ? 4 : 25);
  for (int i = 0; i < ops; ++i) { ++vp::OPS; size_t c = r.below(cs.size()); auto& R = cs[c].rows; int op = r.below(8);
    auto rep = [&](size_t q, char ch) { Row& x = cs[q].rows.back(); x.term = true; x.pad = ch; cs[q].rows.push_back(Row()); };
    if (op < 4) { std::string w = word(r, 9); L("text %zu \"%s\"\n", c, w.c_str()); p[c] << w; R.back().text += w; }
    else if (op < 6) { L("newline %zu\n", c); p[c] << '\n'; R.back().term = true; R.push_back(Row()); }
    else if (op < 7) { char ch = "-=. "[r.below(4)]; L("repeat %c in %zu\n", ch, c); p.repeatToEndOfLine(ch, c); rep(c, ch); }
    else { char ch = "-=."[r.below(3)]; L("repeat %c in all\n", ch); p.repeatToEndOfLine(ch); for (size_t q = 0; q < cs.size(); ++q) rep(q, ch); }
  }
  size_t rows = 0; std::vector<size_t> w(cs.size(), 0);
  for (size_t c = 0; c < cs.size(); ++c) { auto& R = cs[c].rows; if (R.back().text.empty() && !R.back().term) R.pop_back(); rows = std::max(rows, R.size()); for (auto& x : R) w[c] = std::max(w[c], x.text.size()); }
  std::string e; for (size_t y = 0; y < rows; ++y) { e += line; for (size_t c = 0; c < cs.size(); ++c) { Row x; if (y < cs[c].rows.size()) x = cs[c].rows[y]; std::string padd(w[c] - x.text.size(), x.pad); e += cs[c].prefix + (cs[c].left ? x.text + padd : padd + x.text) + cs[c].suffix; } e += '\n'; }
  std::ostringstream o; if (r.chance(1,2)) o << p; else p.print(o); CHECK(o.str() == e, "printed:\n%s\ninstead of:\n%s\n", o.str().c_str(), e.c_str());
  std::ostringstream o2; p.print(o2); CHECK(o2.str() == e, "printing a second time gives something else");
  if (r.chance(1,20)) { char* b = 0; size_t m = 0; FILE* f = open_memstream(&b, &m); mathic::print(f, p); fclose(f); CHECK(std::string(b, m) == e, "printing to a file gives something else"); free(b); }
}
