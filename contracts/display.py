"""Contracts for the number renderings of ColumnPrinter (F01)."""
from .strs import *
from .vec import VecLib
from vcg.unit import Unit
import vcg.exec as X
C = X.fpconst
op = lambda n, a, b: z3.Function(n, FpS, FpS, FpS)(*(sorted([a, b], key=str) if n in ("fadd", "fmul") else [a, b]))
mul = lambda a, b: op("fmul", a, b); plus = lambda a, b: op("fadd", a, b); div = lambda a, b: op("fdiv", a, b); dbl = lambda x: z3.Function("uitofp64", IntS, FpS)(lift(x)); tou = z3.Function("fptoui64", FpS, IntS)
olt = lambda a, b: X.fcmp("olt", a, b); oge = lambda a, b: X.fcmp("oge", a, b)
CATF = lambda a, b: z3.If(lift(a) == 0, lift(b), z3.If(lift(b) == 0, lift(a), CAT(lift(a), lift(b))))
class Num(Contract):
    """the text written is `text(ex, st)`"""
    def pre(self, ex, st, args): self.a = args; self.outp = args[-1]; return [lift(x.r) > 0 for x in args if isinstance(x, PtrV)]
    def cat(self, ex, st, *ts):
        r = ts[0]
        for t in ts[1:]: r = cat(ex, st, r, t)
        return r
    def oneDec(self, ex, st, d):
        L = tou(plus(mul(d, C(10.0)), C(0.5))); ex.assume(st, z3.And(L >= 0, L < 2**64))
        return self.cat(ex, st, self.unum(ex, st, norm(L / 10)), lit("."), self.unum(ex, st, norm(L % 10)))
    def unum(self, ex, st, u): return text_ok(ex, st, UNUM(lift(u)))
    def post(self, ex, old, st, args, ret):
        t = lift(ex.read(st, "i64", self.outp)); return [(n, z3.Implies(lift(c), t == lift(x))) for n, c, x in self.text(ex, st)]
class OneDec(Num):
    def text(self, ex, st): return [("ten times the value plus a half, truncated, with a point before the last digit", True, self.oneDec(ex, st, self.a[0]))]
class RatioI(Num):
    def text(self, ex, st): n, d = map(lift, self.a[:2]); return [("nothing over nothing", z3.And(d == 0, n == 0), lit("0/0")), ("something over nothing", z3.And(d == 0, n != 0), lit("?/0")), ("the ratio to one decimal", d != 0, self.oneDec(ex, st, div(dbl(n), dbl(d))))]
class PercentI(Num):
    def text(self, ex, st):
        n, d = map(lift, self.a[:2]); return [("nothing over nothing", z3.And(d == 0, n == 0), lit("0/0%")), ("something over nothing", z3.And(d == 0, n != 0), lit("?/0%")), ("the percentage to one decimal", d != 0, self.cat(ex, st, self.oneDec(ex, st, div(mul(dbl(n), C(100.0)), dbl(d))), lit("%")))]
class PercentFixed(PercentI):
    def text(self, ex, st):
        out = []
        for n, c, x in PercentI.text(self, ex, st):
            l = lift(slen(ex, st, x)); r = text_ok(ex, st, REP(6 - l, lift(32))); ex.assume(st, z3.Implies(l <= 6, SLEN(r) == z3.simplify(6 - l)))
            out += [(n + ", padded on the left to six", z3.And(c, l < 6), cat(ex, st, r, x)), (n + ", six or longer as it is", z3.And(c, l >= 6), x)]
        return out
class RatioD(Num):
    def near0(self, d): return z3.And(X.fcmp("olt", C(-1e-9), d), X.fcmp("olt", d, C(1e-9)))
    def num(self): return self.a[0]
    def tail(self, ex, st, t): return t
    def text(self, ex, st):
        n, d = self.num(), self.a[1]; z = self.near0
        return [("nothing over nothing", z3.And(z(d), z(n)), self.tail(ex, st, lit("0/0"))), ("something over nothing", z3.And(z(d), z3.Not(z(n))), self.tail(ex, st, lit("?/0"))), ("the ratio to one decimal", z3.Not(z(d)), self.tail(ex, st, self.oneDec(ex, st, div(n, d))))]
class PercentD2(RatioD):
    def num(self): return mul(self.a[0], C(100.0))
    def tail(self, ex, st, t): return cat(ex, st, t, lit("%"))
class PercentD(Num):
    def text(self, ex, st): return [("the percentage to one decimal", True, self.cat(ex, st, self.oneDec(ex, st, mul(self.a[0], C(100.0))), lit("%")))]
class Units(Num):
    base, stop, small, units = 1000.0, 999.95, "", ["k", "M", "G", "T"]
    def AM(self, k):
        a = div(dbl(self.a[0]), C(self.base))
        for _ in range(k): a = div(a, C(self.base))
        return a
    def cond(self, u): return z3.And(*[oge(self.AM(k), C(self.stop)) for k in range(u)], *([z3.Not(oge(self.AM(u), C(self.stop)))] if u < 3 else []), True)
    def text(self, ex, st):
        l = lift(self.a[0]); big = l >= int(self.base); t = self.unum(ex, st, l)
        return [("small numbers as they are", z3.Not(big), cat(ex, st, t, lit(self.small)) if self.small else t)] + [(f"in {un} if that is the smallest unit that keeps the number in range, or the largest offered", z3.And(big, self.cond(u)), self.cat(ex, st, self.oneDec(ex, st, self.AM(u)), lit(un))) for u, un in enumerate(self.units)]
    def invs(self, ex, L, st):
        out = []
        for nm, i in phis_of(L, st, "i64").items():
            i = lift(i); out.append((f"{nm} counts units", i <= 3))
            for k in range(4): out.append((f"units below {nm}={k} are too small", z3.Implies(i == k, z3.And(*[oge(self.AM(j), C(self.stop)) for j in range(k)], True))))
            for n2, a in phis_of(L, st, "double").items(): out.append((f"{n2} is the amount in unit {nm}", z3.And(*[z3.Implies(i == k, a == self.AM(k)) for k in range(4)])))
        return out
class SI(Units): pass
class Bytes(Units): base, stop, small, units = 1024.0, 1023.95, "B", ["kB", "MB", "GB", "TB"]
COM = z3.Function("commas", IntS, IntS, IntS)
class Commafy(Num):
    """commas(u, i): the first i digits of the number u, each followed by a comma if a multiple of three (and at least three) digits are to come"""
    def pre(self, ex, st, args):
        out = Num.pre(self, ex, st, args); self.u = lift(args[0]); self.t = UNUM(self.u); self.n = SLEN(self.t); return out + [COM(self.u, 0) == 0, self.n >= 1, self.n <= 20]
    def dig(self, ex, st, i): return ex.row(st, "i8", sub(CHBASE, self.t), 0)[i]
    def unfold(self, ex, st, i):
        i = lift(i); prev = COM(self.u, i); c = CHR(self.dig(ex, st, i)); rest = self.n - 1 - i; a = CATF(prev, c)
        return z3.Implies(z3.And(0 <= i, i < self.n), COM(self.u, i+1) == z3.If(z3.And(rest >= 3, rest % 3 == 0), CATF(a, lit(",")), a))
    def text(self, ex, st): return [("every digit, with a comma before every group of three from the right", True, COM(self.u, self.n))]
    def invs(self, ex, L, st):
        out = []; E = L.entry
        for nm, i in phis_of(L, st, "i64").items():
            out.append((f"{nm} counts digits", le(i, self.n)))
            for b in ex.f.order:
                for x in ex.f.blocks[b]:
                    if x.op == "alloca" and isinstance(st.env.get(x.res), PtrV): out.append((f"{x.res} holds the digits before {nm}", lift(ex.read(st, "i64", st.env[x.res])) == COM(self.u, i)))
            out.append((f"the result holds the digits before {nm}", lift(ex.read(st, "i64", self.outp)) == COM(self.u, i)))
            for n2, t in phis_of(L, st, "i64").items():
                if n2 != nm: out.append((f"{n2} holds the digits before {nm}", lift(t) == COM(self.u, lift(i))))
        return out
    def extra_facts(self, ex, st, g, sk):
        out = []; pn = {i.res for b in ex.f.order for i in ex.f.blocks[b] if i.op == 'phi'}
        for nm, v in st.env.items():
            if nm in pn and not isinstance(v, (bool, PtrV, list)) and not is_c(v) and z3.is_int(v): out += [self.unfold(ex, st, v), self.unfold(ex, st, z3.simplify(v - 1))]
        return out + [self.unfold(ex, st, 0)]
def h_rep(ex, st, ins, args):
    n, c = args; t = text_ok(ex, st, REP(lift(n), lift(c))); ex.assume(st, SLEN(t) == lift(n)); return t
def unit(): return Unit("display.cpp", [(r"^vp_rep$", h_rep)] + STRS, flags=["-ffp-contract=off"])
JOBS = [("d_commafy", Commafy), ("d_oneDecimal", OneDec), ("d_ratioInteger", RatioI), ("d_ratioDouble", RatioD), ("d_percentInteger", PercentI), ("d_percentIntegerFixed", PercentFixed), ("d_percentDouble", PercentD), ("d_percentDouble2", PercentD2), ("d_withSIPrefix", SI), ("d_bytesInUnit", Bytes)]
