#include "common.h"
#include "mathic/display.h"
#include <fcntl.h>
static std::string capture(const std::string& m, const std::string& pre, int how) {
  char* b = 0; size_t n = 0; FILE* old = stderr; FILE* f = open_memstream(&b, &n); stderr = f;
  switch (how) { case 1: mathic::displayNote(m); break; case 2: mathic::displayError(m); break; case 3: mathic::displayInternalError(m); break; case 4: mathic::displayException(std::runtime_error(m)); break; default: mathic::display(m, pre); }
  stderr = old; fclose(f); std::string s(b, n); free(b); return s; }
static bool sp(char c) { return c == ' ' || c == '\t' || c == '\r' || c == '\v' || c == '\f'; }
void run_case(Rng& r, uint64_t n) {
  std::string m; std::string pre = r.chance(1,2) ? "" : std::string(r.below(8), ">*:"[r.below(3)]); if (r.chance(1,6)) pre += "  "; int lines = n < 20 ? 1 : 1 + r.below(4);
  for (int i = 0; i < lines; ++i) { m += std::string(r.chance(1,2) ? 0 : r.below(12), r.chance(1,8) ? '\t' : ' '); int k = r.below(30);
    for (int j = 0; j < k; ++j) { int len = r.chance(1,30) ? 60 + r.below(60) : 1 + r.below(r.chance(1,2) ? 4 : 20); m += std::string(len, 'a' + (int)r.below(26)); if (j + 1 < k || r.chance(1,3)) m += std::string(r.chance(1,5) ? 1 + r.below(5) : 1, r.chance(1,20) ? '\t' : ' '); }
    if (i + 1 < lines || r.chance(1,2)) m += '\n'; if (r.chance(1,8)) m += '\n'; }
  // lengths close to the limit
  if (r.chance(1,3)) { m.clear(); int ind = r.below(3), t = 70 + r.below(14) - (int)pre.size() - ind; m = std::string(ind, ' '); int a = 1 + r.below(t > 2 ? t - 2 : 1); m += std::string(a, 'x'); int gap = 1 + r.below(3); m += std::string(gap, ' '); int b2 = t - a - gap; m += std::string(b2 > 0 ? b2 : 1, 'y'); if (r.chance(1,2)) m += " z zz zzz"; }
  int how = r.chance(1,3) ? 1 + r.below(4) : 0; L("how %d prefix \"%s\" message:\n%s<end>\n", how, pre.c_str(), m.c_str()); ++vp::OPS;
  std::string out = capture(m, pre, how), full = how == 1 ? "NOTE: " + m + "\n" : how == 2 ? "ERROR: " + m + "\n" : how == 3 ? "INTERNAL ERROR: " + m + "\n" : m; if (how) pre = "";
  // match the output with the message line by line
  size_t p = 0, o = 0;
  while (p < full.size()) {
    size_t e = full.find('\n', p); if (e == std::string::npos) e = full.size(); std::string src = full.substr(p, e - p); size_t i = 0; while (i < src.size() && sp(src[i])) ++i; std::string ind = src.substr(0, i); bool first = true; bool lastline = e == full.size();
    if (i == src.size()) { // a line of blanks
      CHECK(out.compare(o, pre.size() + ind.size(), pre + ind) == 0, "the output line of a blank line does not start with prefix and indentation"); o += pre.size() + ind.size(); if (!lastline) { CHECK(o < out.size() && out[o] == '\n', "a blank line is not ended"); ++o; } else if (o < out.size() && out[o] == '\n') ++o; p = e + 1; continue; }
    for (;;) { // output lines of this source line
      size_t oe = out.find('\n', o); CHECK(oe != std::string::npos, "output ends in the middle of the line \"%s\"", src.c_str()); std::string ol = out.substr(o, oe - o); o = oe + 1;
      CHECK(ol.compare(0, pre.size() + ind.size(), pre + ind) == 0, "the output line \"%s\" does not start with prefix and indentation", ol.c_str()); size_t q = pre.size() + ind.size(); size_t words = 0;
      while (q < ol.size()) { size_t b = i; while (i < src.size() && sp(src[i])) ++i; std::string gap = src.substr(b, i - b); size_t w = i; while (i < src.size() && !sp(src[i])) ++i; std::string word = src.substr(w, i - w); CHECK(!word.empty(), "more is printed than the message has: \"%s\"", ol.c_str());
        // blanks at a break are dropped (or kept, when the line could not hold anything but its indentation)
        if (words == 0 && !(gap.size() && ol.compare(q, gap.size(), gap) == 0)) gap = ""; CHECK(ol.compare(q, gap.size(), gap) == 0, "the blanks before the word \"%s\" are not kept", word.c_str()); q += gap.size();
        CHECK(ol.compare(q, word.size(), word) == 0 && (q + word.size() == ol.size() || sp(ol[q + word.size()])), "the word \"%s\" is not printed in its place in \"%s\"", word.c_str(), ol.c_str()); q += word.size(); ++words; }
      CHECK(ol.size() <= 79 || words <= 1, "the output line has %zu characters: \"%s\"", ol.size(), ol.c_str()); first = false; size_t t = i; while (t < src.size() && sp(src[t])) ++t; if (t == src.size()) break;
      // the break must have been needed
      size_t w = t; while (w < src.size() && !sp(src[w])) ++w; CHECK(words > 0 ? ol.size() + (w - i) > 79 : true, "the line \"%s\" is broken although the next word fits", ol.c_str()); CHECK(words > 0 || ol.size() + (w - t) > 79, "a line without a word is printed before a word that fits"); }
    p = e + 1; }
  CHECK(o == out.size(), "more is printed than the message: \"%s\"", out.substr(o).c_str()); (void)0;
}
