"""Contracts for StlSet (Q04).  The set itself is the standard library's: assumed to keep its elements sorted by the
comparison object, whose contract (descending order of the configuration) is checked against its real code."""
from .spec import *
from vcg.unit import Unit

class V:
    def __init__(self, ex, st, s):
        self.b = ex.read(st, "ptr", evalfn(ex, st, "specp_b", [s])); self.n = ex.read(st, "i64", evalfn(ex, st, "specp_n", [s])); self.row = ex.row(st, "i64", self.b.r, self.b.o)
    def sorted(self):
        n, row = lift(self.n), self.row
        return forall(2, lambda i, j: z3.Implies(z3.And(0 <= i, i < j, j < n), rank(row[j]) <= rank(row[i])))
    def valid(self, st): return [("contiguous", And(eqt(self.b.o, 0), eqt(self.b.i, 0), le(0, self.n), le(0, self.b.r), lt(self.b.r, st.next))), ("sorted, greatest first", self.sorted())]

def setrow(ex, st, p, n, e, unique):
    b = ex.read(st, "ptr", p.at(0)); n0 = ex.read(st, "i64", p.at(8)); old = ex.row(st, "i64", b.r, b.o)
    r = ex.alloc(st); ex.write(st, "ptr", p, r); ex.write(st, "i64", p.at(8), n); row = ex.havoc_row(st, "i64", r.r, 0)
    return b, n0, old, row
def h_insert(ex, st, ins, args):
    p, e = args[-2], lift(ex.read(st, "i64", args[-1])); unique = "multiset" not in ex.u.demangle(ins.extra["callee"][1])
    n = fresh("setn", IntS); b, n0, old, row = setrow(ex, st, p, n, e, unique); n0 = lift(n0)
    i, j = z3.Ints("si sj"); has = fresh("has", z3.BoolSort())
    srt = lambda rw, m: z3.ForAll([i], z3.Implies(T(i), z3.ForAll([j], z3.Implies(z3.And(0 <= i, i < j, j < m), rank(rw[j]) <= rank(rw[i])), patterns=[T(j)])), patterns=[T(i)])
    ex.oblige(st, "inserting into a sorted set", srt(old, n0))
    if not unique: ex.assume(st, z3.Not(has))
    ex.assume(st, [n == z3.If(has, n0, n0+1), n < 2**60, srt(row, n), lift(total(row, 0, n)) == lift(total(old, 0, n0)) + z3.If(has, 0, w(e))])
    if unique: return [ex.fresh_val(st, ir.Ty("ptr")), has]
    return PtrV(lift(ex.read(st, "ptr", p).r), 0, fresh("pos", IntS))
def h_erase_it(ex, st, ins, args):
    p, it = args; b = ex.read(st, "ptr", p); n0 = ex.read(st, "i64", p.at(8))
    ex.oblige(st, "an element of the set is erased", And(eqt(it.r, b.r), eqt(it.o, 0), le(0, it.i), lt(it.i, n0)))
    old = ex.row(st, "i64", b.r, b.o); row = ex.havoc_row(st, "i64", b.r, 0); j = z3.Int("ej"); k = lift(it.i)
    ex.assume(st, [z3.ForAll([j], row[j] == z3.If(j < k, old[j], old[j+1]), patterns=[row[j]]), lift(total(row, 0, sub(n0, 1))) == lift(total(old, 0, n0)) - w(old[k])])
    ex.write(st, "i64", p.at(8), sub(n0, 1))
    return it
def h_erase_key(ex, st, ins, args):
    """all elements equal to the given one go"""
    p, e = args[0], lift(ex.read(st, "i64", args[1])); n = fresh("setn", IntS); b, n0, old, row = setrow(ex, st, p, n, e, False); n0 = lift(n0)
    i, j = z3.Ints("si sj"); gone = fresh("gone", IntS)
    ex.assume(st, [0 <= n, n <= n0, z3.ForAll([i], z3.Implies(T(i), z3.ForAll([j], z3.Implies(z3.And(0 <= i, i < j, j < n), rank(row[j]) <= rank(row[i])), patterns=[T(j)])), patterns=[T(i)]), lift(total(row, 0, n)) == lift(total(old, 0, n0)) - gone])
    return sub(n0, n)

class SC(Contract):
    nonempty = False; rng = False
    def pre(self, ex, st, args):
        s = self.s = args[0]; n, r = z3.Ints("n root")
        ex.write(st, "ptr", evalfn(ex, st, "specp_b", [s]), PtrV(r, 0, 0)); ex.write(st, "i64", evalfn(ex, st, "specp_n", [s]), n)
        v = V(ex, st, s); out = [0 <= n, n < 2**56, 0 < r, r < st.next, r != lift(s.r), v.sorted(), total_zero(v.row, 0)]
        if self.nonempty: out.append(n > 0)
        if self.rng:
            b, e = args[1], args[2]; e.r, e.o, e.i = b.r, b.o, z3.Int("rangelen"); st.env[ex.f.params[2][1]] = e; self.b = b; self.len = e.i
            out += [e.i >= 0, e.i < 2**56, lift(b.r) != r, lift(b.r) != lift(s.r), total_zero(ex.row(st, "i64", b.r, b.o), 0)]
        return out
    def bounds(self, ex, st, kind, p, what):
        if kind != "i64" or is_c(p.r) or (z3.is_expr(p.r) and p.r.eq(lift(self.s.r))): return []
        v = V(ex, st, self.s); ok = And(eqt(p.r, v.b.r), eqt(p.o, 0), le(0, p.i), lt(p.i, v.n))
        if self.rng: ok = Or(ok, And(eqt(p.r, self.b.r), eqt(p.o, 0), le(0, p.i), lt(p.i, self.len)))
        return [("only stored elements are read", And(ok, what == "read"))]
    def extra_facts(self, ex, st, g, sk):
        out = []
        for t in rows_in([g] + st.facts[-40:]):
            row, lo, hi = t.arg(0), t.arg(1), t.arg(2); out += [total_zero(row, lo), total_step(row, lo, hi), total_step(row, lo, hi-1)]
        s = [x for x in sk if z3.is_int(x)]
        return out + seeds(lift(0), *s, *[x+1 for x in s])
    def invs(self, ex, L, st):
        v = V(ex, st, self.s); v0 = V(ex, ex.pre, self.s); out = [(n, f) for n, f in v.valid(st)] + [("storage apart", And(lt(0, v.b.r), Not(eqt(v.b.r, self.s.r)), Or(eqt(v.b.r, v0.b.r), le(L.entry.next, v.b.r))))]
        for nm, p in phis_of(L, st, "ptr").items():
            if not self.rng: continue
            s0 = ex.row(ex.pre, "i64", self.b.r, self.b.o)
            out += [(f"{nm} in the range", And(eqt(p.r, self.b.r), eqt(p.o, 0), le(0, p.i), le(p.i, self.len))), ("range untouched", ex.row(st, "i64", self.b.r, self.b.o) == s0),
                (f"content up to {nm}", lift(total(v.row, 0, v.n)) == lift(total(v0.row, 0, v0.n)) + lift(total(s0, 0, p.i))), (f"size up to {nm}", eqt(v.n, add(v0.n, p.i)))]
        return out
    def post(self, ex, old, st, args, ret):
        v, vo = V(ex, st, self.s), V(ex, old, self.s)
        return v.valid(st) + self.post2(ex, old, v, vo, args, ret)
    def unchanged(self, v, vo): return [("nothing changes", And(eqt(v.n, vo.n), v.row == vo.row))]
class Push(SC):
    def post2(self, ex, old, v, vo, args, ret): return [("content grows by exactly the pushed entry", lift(total(v.row, 0, v.n)) == lift(total(vo.row, 0, vo.n)) + w(lift(args[1]))), ("one more entry", eqt(v.n, add(vo.n, 1)))]
class Range(SC):
    rng = True
    def post2(self, ex, old, v, vo, args, ret): return [("content grows by exactly the range", lift(total(v.row, 0, v.n)) == lift(total(vo.row, 0, vo.n)) + lift(total(ex.row(old, "i64", self.b.r, self.b.o), 0, self.len))), ("size grows by the length of the range", eqt(v.n, add(vo.n, self.len)))]
class Top(SC):
    nonempty = True
    def maxi(self, vo, ret): return [("the returned entry is a maximum", forall(1, lambda j: z3.Implies(z3.And(0 <= j, j < lift(vo.n)), rank(vo.row[j]) <= rank(lift(ret)))))]
    def post2(self, ex, old, v, vo, args, ret): return self.maxi(vo, ret) + self.unchanged(v, vo) + [("the top is stored", lift(ret) == vo.row[0])]
class Pop(Top):
    def post2(self, ex, old, v, vo, args, ret): return self.maxi(vo, ret) + [("content shrinks by exactly the returned entry", lift(total(v.row, 0, v.n)) == lift(total(vo.row, 0, vo.n)) - w(lift(ret))), ("one entry less", eqt(v.n, sub(vo.n, 1)))]
class Empty(SC):
    def post2(self, ex, old, v, vo, args, ret): return [("empty exactly without entries", lift(ret) == (lift(vo.n) == 0))] + self.unchanged(v, vo)
class Ctor(SC):
    def pre(self, ex, st, args): self.s = args[0]; return [lift(args[0].r) != lift(args[1].r)]
    def post2(self, ex, old, v, vo, args, ret): return [("starts empty", eqt(v.n, 0))]
class Cmp(Contract):
    def pre(self, ex, st, args): return []
    def post(self, ex, old, st, args, ret):
        a, b = ex.read(old, "i64", args[1]), ex.read(old, "i64", args[2]); return [("the set orders greatest first", lift(ret) == (rank(lift(b)) < rank(lift(a))))]
def unit(): return Unit("stlset.cpp", CONF_Q + [(r"set<long.*>::insert\(", h_insert), (r"set<long.*>::erase\(long const\*\)", h_erase_it), (r"set<long.*>::erase\(long const&\)", h_erase_key)])
JOBS = [("d_push", Push), ("d_push_range", Range), ("d_pop", Pop), ("d_top", Top), ("d_empty", Empty), ("d_ctor", Ctor), ("d_cmp", Cmp)]
