#include "common.h"
#include "mathic/NameFactory.h"
struct Prod { int id; virtual ~Prod() {} };
static int MADE[40]; template<int I> static std::unique_ptr<Prod> mk() { ++MADE[I]; std::unique_ptr<Prod> p(new Prod()); p->id = I; return p; }
struct Named : Prod { Named() { id = 39; } static const char* staticName() { return "static.name"; } };
typedef std::unique_ptr<Prod> (*F)(); static F FS[] = {mk<0>,mk<1>,mk<2>,mk<3>,mk<4>,mk<5>,mk<6>,mk<7>,mk<8>,mk<9>,mk<10>,mk<11>};
static std::string word(Rng& r, int mx) { std::string s; int n = r.below(mx + 1); for (int i = 0; i < n; ++i) s += r.chance(1,40) ? (char)('\x80' + r.below(100)) : r.chance(1,20) ? '\0' : "ab-"[r.below(3)]; return s; }
void run_case(Rng& r, uint64_t) {
  mathic::NameFactory<Prod> f("thing"); std::map<std::string,int> m; CHECK(f.empty(), "a new registry is not empty"); CHECK(f.abstractProductName() == "thing", "the product name is wrong");
  int k = r.below(13); if (k > 12) k = 12;
  for (int i = 0; i < k; ++i) { std::string w = word(r, 5); if (m.count(w)) continue; L("register \"%s\"\n", w.c_str()); int id = r.below(12); f.registerProduct(w, FS[id]); m[w] = id; }
  if (r.chance(1,5)) { mathic::nameFactoryRegister<Named>(f); m["static.name"] = 39; L("register static.name\n"); }
  CHECK(f.empty() == m.empty(), "empty() is wrong");
  for (int q = 0; q < 15; ++q) { ++vp::OPS; std::string p = word(r, 4); if (r.chance(1,3) && !m.empty()) { auto it = m.begin(); std::advance(it, r.below(m.size())); p = it->first.substr(0, r.below(it->first.size() + 1)); if (r.chance(1,2)) p = it->first; }
    L("query \"%s\"\n", p.c_str());
    std::vector<std::string> exp, got; for (auto& x : m) if (x.first.compare(0, p.size(), p) == 0) exp.push_back(x.first);
    f.namesWithPrefix(p, got); CHECK(got == exp, "the names with prefix \"%s\" are wrong (%zu instead of %zu)", p.c_str(), got.size(), exp.size());
    std::string want = m.count(p) ? p : exp.size() == 1 ? exp[0] : ""; int e = m.count(p) ? 0 : exp.size() == 1 ? 0 : exp.empty() ? 1 : 2; int g = 0; std::string res;
    try { res = mathic::uniqueNameWithPrefix(f, p); } catch (const mathic::UnknownNameException&) { g = 1; } catch (const mathic::AmbiguousNameException&) { g = 2; }
    CHECK(g == e, "resolving \"%s\": outcome %d instead of %d (0 a name, 1 unknown, 2 ambiguous)", p.c_str(), g, e); if (!e) CHECK(res == want, "\"%s\" resolves to \"%s\" instead of \"%s\"", p.c_str(), res.c_str(), want.c_str());
    g = 0; std::unique_ptr<Prod> o; try { o = mathic::createWithPrefix(f, p); } catch (const mathic::UnknownNameException&) { g = 1; } catch (const mathic::AmbiguousNameException&) { g = 2; }
    CHECK(g == e, "creating by prefix \"%s\": outcome %d instead of %d", p.c_str(), g, e); if (!e) CHECK(o && o->id == m[want], "creating by prefix \"%s\" gives the wrong product", p.c_str());
    std::unique_ptr<Prod> c = f.createNullOnUnknown(p); CHECK((c.get() != 0) == (m.count(p) != 0), "createNullOnUnknown(\"%s\")", p.c_str()); if (c) CHECK(c->id == m[p], "the wrong product is created");
    bool th = false; try { c = f.create(p); } catch (const mathic::UnknownNameException&) { th = true; } CHECK(th == !m.count(p), "create(\"%s\") %s", p.c_str(), th ? "throws" : "does not throw"); if (!th) CHECK(c && c->id == m[p], "the wrong product is created");
  }
}
