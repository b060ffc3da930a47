#include "common.h"
#include "mathic/CliParser.h"
#include "mathic/CliParameter.h"
#include "mathic/BoolParameter.h"
#include "mathic/IntegerParameter.h"
#include "mathic/StringParameter.h"
#include "mathic/HelpAction.h"
struct Ev { std::vector<std::string> direct; int directs; std::vector<std::pair<std::string,std::string> > opts; int action; };
static Ev EV; static std::vector<std::string> PN[3]; static bool TAKE[3];
struct RP : mathic::CliParameter { RP(const std::string& n): CliParameter(n, "d") {} std::string argumentType() const { return "X"; } std::string valueAsString() const { return ""; } void processArgument(const std::string& a) { EV.opts.push_back(std::make_pair(name(), a)); } };
template<int I> struct A : mathic::Action { std::vector<std::unique_ptr<RP> > ps; A() { EV.action = I; for (auto& n : PN[I]) ps.emplace_back(new RP(n)); }
  void directOptions(std::vector<std::string> t, mathic::CliParser& p) { EV.direct = t; ++EV.directs; if (!TAKE[I]) mathic::Action::directOptions(t, p); }
  void performAction() {} const char* name() const { return "x"; } const char* description() const { return ""; } const char* shortDescription() const { return ""; }
  void pushBackParameters(std::vector<mathic::CliParameter*>& v) { for (auto& p : ps) v.push_back(p.get()); } };
static std::string word(Rng& r, int mx, const char* al) { std::string s; int n = r.below(mx + 1), k = strlen(al); for (int i = 0; i < n; ++i) s += al[r.below(k)]; return s; }
static int resolve(const std::vector<std::string>& names, const std::string& p, std::string& out) { std::vector<std::string> c; for (auto& n : names) { if (n == p) { out = n; return 0; } if (n.compare(0, p.size(), p) == 0) c.push_back(n); } if (c.size() == 1) { out = c[0]; return 0; } return c.empty() ? 1 : 2; }
void run_case(Rng& r, uint64_t) {
  mathic::CliParser ps; std::vector<std::string> names; const char* al = r.chance(1,2) ? "ab" : "abc-";
  for (int i = 0; i < 3; ++i) { std::string n = word(r, 4, "ab-"); if (std::find(names.begin(), names.end(), n) != names.end()) n = std::string(7 + i, 'b'); names.push_back(n); L("action %d \"%s\"", i, n.c_str());
    PN[i].clear(); int k = r.below(4); for (int j = 0; j < k; ++j) { std::string o = word(r, 4, al); if (std::find(PN[i].begin(), PN[i].end(), o) != PN[i].end()) continue; PN[i].push_back(o); L(" \"%s\"", o.c_str()); } TAKE[i] = r.chance(3,4); L(TAKE[i] ? "\n" : " (no direct options)\n"); }
  ps.registerAction<A<0> >(names[0]); ps.registerAction<A<1> >(names[1]); ps.registerAction<A<2> >(names[2]);
  std::vector<std::string> reg, srt = names; std::sort(srt.begin(), srt.end()); ps.pushBackRegisteredActionNames(reg); CHECK(reg == srt, "the registered action names are wrong");
  for (int q = 0; q < 20; ++q) { ++vp::OPS;
    std::vector<std::string> line; int n = r.below(9); if (r.chance(1,30)) n = 0; std::string an = ""; int act = r.below(3);
    for (int i = 0; i < n; ++i) { std::string t;
      if (i == 0) { t = names[act]; if (r.chance(1,4)) t = t.substr(0, r.below(t.size() + 1)); if (r.chance(1,15)) t = word(r, 5, "abq-"); }
      else if (r.chance(1,10)) t = ""; else if (r.chance(1,2)) { t = "-"; if (!PN[act].empty() && r.chance(9,10)) { t += PN[act][r.below(PN[act].size())]; if (r.chance(1,4)) t = t.substr(0, 1 + r.below(t.size())); } else t += word(r, 3, al); }
      else t = word(r, 4, "abz=01");
      line.push_back(t); }
    L("parse:"); for (auto& t : line) L(" \"%s\"", t.c_str()); L("\n");
    // 0 fine, 1 unknown, 2 ambiguous, 3 other error
    Ev ex; ex.action = -1; ex.directs = 0; int e = 0; std::string nm;
    if (line.empty()) e = 1; else { e = resolve(names, line[0], nm); if (!e) { for (int i = 0; i < 3; ++i) if (names[i] == nm) ex.action = i;
      std::vector<std::string> rest; for (size_t i = 1; i < line.size(); ++i) if (!line[i].empty()) rest.push_back(line[i]);
      size_t i = 0; while (i < rest.size() && rest[i][0] != '-') ex.direct.push_back(rest[i++]); ex.directs = 1; if (!ex.direct.empty() && !TAKE[ex.action]) e = 3;
      while (!e && i < rest.size()) { if (rest[i][0] != '-') { e = 3; break; } std::string on; e = resolve(PN[ex.action], rest[i].substr(1), on); if (e) break; ++i; std::string arg; if (i < rest.size() && rest[i][0] != '-') arg = rest[i++]; ex.opts.push_back(std::make_pair(on, arg)); } } }
    EV = Ev(); EV.action = -1; EV.directs = 0; int g = 0; std::unique_ptr<mathic::Action> a;
    try { if (r.chance(1,4)) { std::vector<char*> av; for (auto& t : line) av.push_back(const_cast<char*>(t.c_str())); a = ps.parse((int)av.size(), av.data()); } else a = ps.parse(line); }
    catch (const mathic::UnknownNameException&) { g = 1; } catch (const mathic::AmbiguousNameException&) { g = 2; } catch (const mathic::MathicException&) { g = 3; } catch (const std::logic_error&) { g = 4; }
    CHECK(g == e, "the parse ends with outcome %d instead of %d (0 fine, 1 unknown name, 2 ambiguous name, 3 error, 4 internal error)", g, e);
    if (ex.action >= 0) CHECK(EV.action == ex.action, "action %d is created instead of %d", EV.action, ex.action);
    if (ex.directs) { CHECK(EV.directs == 1, "the tokens before the first option are handed over %d times", EV.directs); CHECK(EV.direct == ex.direct, "%zu tokens before the first option are handed over instead of %zu, or others", EV.direct.size(), ex.direct.size()); }
    CHECK(EV.opts == ex.opts, "the options are not handled as given (%zu handled, %zu expected)", EV.opts.size(), ex.opts.size());
    if (!e) CHECK(a.get() != 0, "no action is returned");
  }
}
