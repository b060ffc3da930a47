#include "common.h"
#include "mathic/BoolParameter.h"
#include "mathic/IntegerParameter.h"
#include "mathic/StringParameter.h"
#include "mathic/error.h"
template<class P> static bool proc(P& p, const std::string& s) { try { p.processArgument(s); return true; } catch (const mathic::MathicException&) { return false; } }
void run_case(Rng& r, uint64_t) {
  std::vector<std::string> ts; 
  for (int i = 0; i < 30; ++i) { std::string t; switch (r.below(7)) {
    case 0: t = std::to_string((uint32_t)r.next()); break; case 1: t = std::to_string(r.below(30)); break;
    case 2: t = std::to_string(4294967295ull + r.range(-3, 3)); break; case 3: { const char* x[] = {"", "on", "off", "ON", "Off", "on ", " off", "o", "of", "offf", "true", "1", "-", "--", "0", "00", "-0", "-1", "+1", "1e3", "0x10", "2147483647", "2147483648", "4294967295", "4294967296", "99999999999999999999999"}; t = x[r.below(sizeof x / sizeof *x)]; break; }
    case 4: t = (r.chance(1,2) ? "-" : r.chance(1,2) ? "0" : " ") + std::to_string(r.below(5000000000ull)); break;
    case 5: t = std::to_string(r.below(100000)) + (r.chance(1,2) ? " " : r.chance(1,2) ? "." : std::string(1, '\0')); break;
    default: { int n = r.below(6); for (int k = 0; k < n; ++k) t += r.chance(1,9) ? (char)r.below(256) : "0123onf -+"[r.below(10)]; } } ts.push_back(t); }
  uint32_t d = r.chance(1,2) ? r.below(5) : (uint32_t)r.next(); mathic::IntegerParameter ip("n", "d", d); bool bd = r.chance(1,2); mathic::BoolParameter bp("b", "d", bd); mathic::StringParameter sp("s", "d", "x y");
  CHECK(ip.value() == d && bp.value() == bd && sp.value() == "x y", "a default value is not held"); CHECK(ip.name() == "n" && bp.name() == "b" && sp.name() == "s" && ip.description() == "d", "the name is not held");
  ip.appendToDescription("ef"); CHECK(ip.description() == "def", "the description is not extended");
  bool bv = bd;
  for (auto& t : ts) { ++vp::OPS; std::string hex; for (unsigned char c : t) { char b[8]; snprintf(b, 8, c >= 32 && c < 127 ? "%c" : "\\x%02x", c); hex += b; } L("\"%s\"\n", hex.c_str());
    bool canon = !t.empty() && t.size() <= 10 && (t == "0" || t[0] != '0'); uint64_t v = 0; for (char c : t) { if (c < '0' || c > '9') canon = false; else if (canon) v = v * 10 + (c - '0'); } 
    // the range that must be accepted is [0, 2^31-1] (as the message says); numbers up to 2^32-1 may be accepted, but only faithfully
    bool must = canon && v < 2147483648ull, may = canon && v <= 4294967295ull; bool got = proc(ip, t);
    CHECK(!must || got, "the integer \"%s\" is refused", hex.c_str()); CHECK(!got || may, "\"%s\" is accepted as an integer", hex.c_str());
    if (got) { CHECK(ip.value() == v && (unsigned)ip == v, "after \"%s\" the integer is %u", hex.c_str(), ip.value()); CHECK(ip.valueAsString() == t, "the text of the integer parameter is \"%s\" after \"%s\"", ip.valueAsString().c_str(), t.c_str()); }
    bool b = proc(bp, t); CHECK(b == (t == "" || t == "on" || t == "off"), "\"%s\" is %s as on/off", hex.c_str(), b ? "accepted" : "refused"); if (b) bv = t != "off"; CHECK(bp.value() == bv, "the on/off value is wrong after \"%s\"", hex.c_str());
    CHECK(bp.valueAsString() == (bv ? "on" : "off"), "the text of the on/off parameter is wrong");
    CHECK(proc(sp, t) && sp.value() == t && sp.valueAsString() == t, "the string parameter does not hold its argument");
    mathic::IntegerParameter i2("", "", 77); uint32_t w = (uint32_t)r.next() >> r.below(32); ip = w; CHECK(ip.value() == w, "assignment"); std::string txt = ip.valueAsString(); CHECK(proc(i2, txt) && i2.value() == w, "the text of integer %u given back yields %u", w, i2.value());
    mathic::BoolParameter b2("", "", !bv); CHECK(proc(b2, bp.valueAsString()) && b2.value() == bv, "the text of the on/off parameter given back changes it");
  }
}
