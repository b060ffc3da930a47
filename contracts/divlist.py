"""Contracts for DivList (D02, D03).  Entries and monomials are values; what the configuration answers about
them is uninterpreted: dv (divides), rank (order), expo (exponents)."""
import re
from .spec import *
from .vec import VecLib, J
from .mask import bitand, TOP, admits, expo, dv
from vcg.unit import Unit
MK = z3.Function("maskat", IntS, IntS, IntS)     # MK(era, t): mask of t under the calculator as it is in this era (a rebuild starts a new era)
SORT = z3.Bool("sorted_option"); VC = z3.Int("varcount")
EQE = z3.Function("equal_exponents", IntS, IntS, B); DIFF = z3.Function("differing_variable", IntS, IntS, IntS)
REPS = z3.ArraySort(IntS, z3.BoolSort())

def axioms():
    e, a, b, v = z3.Ints("xe xa xb xv")
    return [z3.ForAll([a, b, e], z3.Implies(dv(a, b), admits(MK(e, a), MK(e, b))), patterns=[z3.MultiPattern(dv(a, b), MK(e, a))]),    # masking lemma, proved for D01
            z3.ForAll([a, b], z3.Implies(z3.And(SORT, dv(a, b)), rank(a) <= rank(b)), patterns=[dv(a, b)]),                         # documented: the order refines divisibility
            z3.ForAll([a, b, v], z3.Implies(z3.And(EQE(a, b), 0 <= v, v < VC), expo(a, v) == expo(b, v)), patterns=[z3.MultiPattern(EQE(a, b), expo(a, v))]),
            z3.ForAll([a, b], z3.Implies(z3.Not(EQE(a, b)), z3.And(0 <= DIFF(a, b), DIFF(a, b) < VC, expo(a, DIFF(a, b)) != expo(b, DIFF(a, b)))), patterns=[EQE(a, b)])]

class VList:
    bo = 0
    def __init__(self, ex, st, l):
        u = ex.u; self.pb, self.pn = evalfn(ex, st, "specp_b", [l]), evalfn(ex, st, "specp_n", [l])
        self.b, self.n = ex.read(st, "ptr", self.pb), ex.read(st, "i64", self.pn)
        self.c = ex.read(st, "i64", evalfn(ex, st, "specp_c", [l])) if not u.linked else None
        self.row = ex.row(st, "i64", self.b.r, add(self.b.o, u.eoff)); self.mrow = ex.row(st, "i32", self.b.r, self.b.o) if u.mask else None
        self.n_ = lift(self.n); self.u = u
    def storage(self, st): return And(eqt(self.b.o, 0), eqt(self.b.i, 0), le(0, self.n), lt(self.n, 2**57), le(self.n, self.c) if self.c is not None else True, lt(self.c, 2**61) if self.c is not None else True)
    def masks(self, era, lo=0, hi=None):
        if not self.u.mask: return True
        hi = self.n_ if hi is None else lift(hi)
        return forall(1, lambda j: z3.Implies(z3.And(lift(lo) <= j, j < hi), self.mrow[j] == MK(lift(era), self.row[j])))
    def sorted(self, lo=0, hi=None):
        hi = self.n_ if hi is None else lift(hi); r = self.row
        ok = (lambda i, j: rank(r[j]) <= rank(r[i])) if self.u.linked else (lambda i, j: rank(r[i]) <= rank(r[j]))
        return forall(2, lambda i, j: z3.Implies(z3.And(lift(lo) <= i, i < j, j < hi), ok(i, j)))
    def total(self): return lift(total(self.row, 0, self.n_))
def V(ex, st, l): return getattr(ex.u, 'view', VList)(ex, st, l)
def era(st): return st.ghost["era"]

class DL(Contract):
    key = None; keyarg = 1; rng = False; qargs = ()
    def entry(self, ex, st, p): return lift(ex.read(st, "i64", p))
    def pre(self, ex, st, args):
        l = self.l = args[0]; st.ghost["era"] = z3.Int("era0"); u = ex.u
        r, n, c = z3.Ints("list_root list_n list_cap"); pb, pn = evalfn(ex, st, "specp_b", [l]), evalfn(ex, st, "specp_n", [l])
        ex.write(st, "ptr", pb, PtrV(r, 0, 0)); ex.write(st, "i64", pn, n)
        if not u.linked: ex.write(st, "i64", evalfn(ex, st, "specp_c", [l]), c)
        out = [0 <= n, n <= c, c < 2**56, r >= 0, r < st.next, (r == 0) == (c == 0), VC >= 0, VC < 2**32] + [r != lift(a.r) for a in args if isinstance(a, PtrV)] + [lift(l.r) != lift(a.r) for a in args[1:] if isinstance(a, PtrV)]
        v = V(ex, st, l)
        out += axioms() + [v.masks(era(st)), z3.Implies(SORT, v.sorted()), total_zero(v.row, 0)]
        if self.keyarg is not None and len(args) > self.keyarg and isinstance(args[self.keyarg], PtrV) and not self.rng: self.key = self.entry(ex, st, args[self.keyarg])
        st.ghost["reported"] = z3.K(IntS, z3.BoolVal(False)); st.ghost["stopped"] = z3.BoolVal(False); st.ghost["given"] = z3.IntVal(0)
        if self.rng:
            b, e = args[1], args[2]; e.r, e.o, e.i = b.r, b.o, z3.Int("rangelen"); st.env[ex.f.params[2][1]] = e; self.rb = b; self.len = e.i
            out += [e.i >= 0, e.i < 2**56, lift(b.r) != r, total_zero(ex.row(st, "i64", b.r, b.o), 0)]
        return out + self.pre2(ex, st, args, v)
    def pre2(self, ex, st, args, v): return []
    def match(self, e): return z3.BoolVal(True)
    def bounds(self, ex, st, kind, p, what):
        if is_c(p.r) or any(isinstance(a, PtrV) and p.r is a.r for a in ex.args) or kind not in ("i64", "i32"): return []
        v = V(ex, st, self.l)
        if blk_cmp(p.r, 0, v.b.r, 0) == "eq" or not ex.valid(Not(eqt(p.r, v.b.r))): return [("list access to stored entries", Implies(eqt(p.r, v.b.r), And(le(0, p.i), lt(p.i, v.n if what == "read" or v.c is None else v.c))))]
        return []
    def roots(self, ex, st):
        n = st.mem.get("ptr"); 
        return [ex.read(st, "ptr", evalfn(ex, st, "specp_b", [self.l])).r] if getattr(self, "l", None) is not None else []
    def pn(self, ex):
        if not hasattr(self, "_pn"): self._pn = {i.res for bl in ex.f.order for i in ex.f.blocks[bl] if i.op == "phi"}
        return self._pn
    def tmps(self, ex):
        if not hasattr(self, "_tm"): self._tm = {i.res for b in ex.f.order for i in ex.f.blocks[b] if i.op == "alloca" and i.ty.k == "named" and "ArenaVector" in i.ty.a}
        return self._tm
    def idxs(self, ex, st):
        out = []
        for nm, v in st.env.items():
            if nm not in self.pn(ex): continue
            if isinstance(v, PtrV): out.append(lift(v.i))
            elif not isinstance(v, (bool, list)) and (is_c(v) or (z3.is_expr(v) and z3.is_int(v))): out.append(lift(v))
        return out
    def extra_facts(self, ex, st, g, sk):
        out = []
        for t in rows_in([g] + st.facts[-60:]):
            row, lo, hi = t.arg(0), t.arg(1), t.arg(2); out += [total_zero(row, lo), total_step(row, lo, hi), total_step(row, lo, hi-1)]
        s = [x for x in sk if z3.is_int(x)]; k = getattr(ex, "lastpos", None)
        base = s + self.idxs(ex, st) + ([lift(k)] if k is not None else []); sd = {}
        for x in base:
            for y in (x-1, x, x+1):
                y = z3.simplify(y); sd[y.get_id()] = y
        if isinstance(self, RemoveElement):
          for r in (V(ex, st, self.l).row, V(ex, ex.pre, self.l).row):
            for k, x in enumerate(self.idxs(ex, st) + s):
                for y in (x, x-1): t = DIFF(self.key, r[y]); sd[t.get_id()] = t; out.append(EQE(self.key, r[y]) == EQE(self.key, r[y]))
        if isinstance(self, Front): sd[-3] = self.k
        sd[-1] = z3.IntVal(0); sd[-2] = z3.simplify(V(ex, st, self.l).n_ - 1)
        if g is not True and self.key is not None and s:
            v = V(ex, st, self.l)
        return out + seeds(*sd.values())
    def same(self, ex, old, st):
        v, v0 = V(ex, st, self.l), V(ex, old, self.l)
        return [("the list is unchanged", And(peq(v.b, v0.b), eqt(v.n, v0.n), v.row == v0.row, *([v.mrow == v0.mrow] if ex.u.mask else [])))]
    def wf(self, ex, st):
        v = V(ex, st, self.l)
        return [("the storage is consistent", v.storage(st))] + ([("every entry carries its mask", v.masks(era(st)))] if ex.u.mask else [])
    def cursors(self, ex, L, st):
        v = V(ex, st, self.l); return [(nm, p) for nm, p in phis_of(L, st, "ptr").items()]
    # linked: a cursor at p has seen the storage places >= p; array: the places < p
    def seen(self, ex, p, q): return (lift(p.i) <= q) if ex.u.linked else (q < lift(p.i))
    def invs(self, ex, L, st):
        v, v0, vE = V(ex, st, self.l), V(ex, ex.pre, self.l), V(ex, L.entry, self.l); out = []; u = ex.u
        out += [("storage", v.storage(st)), ("storage kept or newer", Or(eqt(v.b.r, vE.b.r), le(L.entry.next, v.b.r))), ("storage known", And(le(0, v.b.r), lt(v.b.r, st.next))), ("storage apart", And(*[Or(eqt(v.b.r, 0), Not(eqt(v.b.r, a.r))) for a in ex.args if isinstance(a, PtrV)])),
            ("unchanged", And(peq(v.b, v0.b), eqt(v.n, v0.n), v.row == v0.row, *([v.mrow == v0.mrow] if u.mask else []))),
            ("unchanged in the loop", And(peq(v.b, vE.b), eqt(v.n, vE.n), v.row == vE.row, *([v.mrow == vE.mrow] if u.mask else []))),
            ("entries unchanged in the loop", And(peq(v.b, vE.b), eqt(v.n, vE.n), v.row == vE.row)),
            ("era kept", era(st) == era(L.entry)), ("masks", v.masks(era(st))), ("sorted", z3.Implies(SORT, v.sorted())),
            ("content kept", v.total() == vE.total()), ("content and given away", v.total() + st.ghost["given"] == vE.total() + L.entry.ghost["given"]), ("given", st.ghost["given"] == L.entry.ghost["given"]),
            ("not stopped", z3.Not(st.ghost["stopped"])), ("reported kept", st.ghost["reported"] == L.entry.ghost["reported"]),
            ("only stored matches reported", forall(1, lambda q: z3.Implies(st.ghost["reported"][q], z3.And(0 <= q, q < v.n_, self.match(v.row[q])))))]
        # cursors
        pts = list(phis_of(L, st, "ptr").items()); rep = st.ghost["reported"]; R0 = getattr(ex, "pushrow", None)
        for nm, p in pts:
            inlist = And(eqt(p.r, v.b.r), eqt(p.o, v.bo), le(0, p.i), le(p.i, v.n)); out.append((f"{nm} in the list", inlist))
            sn = lambda q, p=p: z3.And(0 <= q, q < v.n_, self.seen(ex, p, q)); un = lambda q, p=p: z3.And(0 <= q, q < v.n_, z3.Not(self.seen(ex, p, q)))
            kk = getattr(ex, "lastpos", None)
            if kk is not None: out.append((f"{nm} up to the position found", And(eqt(p.r, v.b.r), eqt(p.o, v.bo), le(0, p.i), le(p.i, kk))))
            if self.key is not None:
                out.append((f"no match seen before {nm}", forall(1, lambda q: z3.Implies(sn(q), z3.Not(self.match(v.row[q]))))))
            out.append((f"reported before {nm}", forall(1, lambda q: z3.Implies(sn(q), rep[q] == self.match(v.row[q])))))
            out.append((f"not reported from {nm} on", forall(1, lambda q: z3.Implies(un(q), z3.Not(rep[q])))))
            if u.mask:
                out.append((f"masks before {nm}", forall(1, lambda q: z3.Implies(sn(q), v.mrow[q] == MK(era(st), v.row[q])))))
                out.append((f"masks from {nm} on", forall(1, lambda q: z3.Implies(un(q), v.mrow[q] == MK(era(L.entry), v.row[q])))))
            out.append((f"unchanged from {nm} on", And(eqt(v.n, vE.n), peq(v.b, vE.b), forall(1, lambda q: z3.Implies(un(q), z3.And(v.row[q] == vE.row[q], *([v.mrow[q] == vE.mrow[q]] if u.mask else [])))))))
            out += self.more(ex, L, st, v, v0, vE, nm, p, pts)
            if self.key is not None: out.append((f"up to the entry before {nm}", forall(1, lambda q: z3.Implies(sn(q), rank(v.row[q]) <= rank(self.key)))))
            for tn, tv in st.env.items():
                if isinstance(tv, PtrV) and tn in self.tmps(ex):
                    tc, tz = ex.read(st, "i64", tv.at(8)), ex.read(st, "i64", tv.at(16)); out.append((f"copied up to {nm}", And(eqt(tc, sub(v.n, p.i) if u.linked else p.i), eqt(tz, v.n))))
            if self.rng: 
                s0 = ex.row(ex.pre, "i64", self.rb.r, self.rb.o)
                out += [(f"{nm} in the range", And(eqt(p.r, self.rb.r), eqt(p.o, 0), le(0, p.i), le(p.i, self.len))), ("range untouched", ex.row(st, "i64", self.rb.r, self.rb.o) == s0),
                    (f"content up to {nm}", v.total() == v0.total() + lift(total(s0, 0, p.i))), (f"size up to {nm}", eqt(v.n, add(v0.n, p.i)))]
        for nm, x in phis_of(L, st, "i64").items():
            out.append((f"{nm} small", And(le(0, x), le(x, 34)))); out.append((f"{nm} counts variables", le(x, VC)))
            out.append((f"{nm} counts the removed", eqt(add(v.n, x), vE.n)))
            for pnm, p in list(pts) + [(a, b) for LL in L.outer for a, b in phis_of(LL, st, "ptr").items()]:
                if self.key is not None and eqt(p.r, v.b.r) is not False:
                    k = lift(p.i) - 1 if u.linked else lift(p.i)
                    out.append((f"equal up to {nm} at {pnm}", forall(1, lambda q: z3.Implies(z3.And(0 <= q, q < lift(x)), expo(self.key, q) == expo(v.row[k], q)))))
        return out
    def more(self, ex, L, st, v, v0, vE, nm, p, pts): return []

class Find(DL):
    def match(self, e): return dv(e, self.key)
    def post(self, ex, old, st, args, ret):
        v = V(ex, old, self.l); null = eqt(ret.r, 0)
        return self.same(ex, old, st) + [("nothing is returned only if no entry divides", Implies(null, forall(1, lambda q: z3.Implies(z3.And(0 <= q, q < v.n_), z3.Not(self.match(v.row[q])))))),
            ("the returned entry is stored", Or(null, And(eqt(ret.r, v.b.r), eqt(ret.o, add(v.bo, ex.u.eoff)), le(0, ret.i), lt(ret.i, v.n)))), ("the returned entry divides", Or(null, self.match(v.row[lift(ret.i)])))]
    def pre2(self, ex, st, args, v): return [lift(v.b.r) != 0] if not ex.u.linked else [lift(v.b.r) != 0]
class FindAll(Find):
    """also the traversals: match is true"""
    def post(self, ex, old, st, args, ret):
        v = V(ex, old, self.l); rep = st.ghost["reported"]
        return self.same(ex, old, st) + [("unless stopped, exactly the matching entries are reported", z3.Implies(z3.Not(st.ghost["stopped"]), forall(1, lambda q: z3.Implies(z3.And(0 <= q, q < v.n_), rep[q] == self.match(v.row[q])))))]
class FindMult(FindAll):
    def match(self, e): return dv(self.key, e)
class ForAll(FindAll):
    keyarg = None
    def match(self, e): return z3.BoolVal(True)
def h_proceed(ex, st, ins, args):
    C, p = ex.contract, args[1]; v = V(ex, st, C.l)
    ex.oblige(st, "nothing is reported after the receiver asked to stop", z3.Not(st.ghost["stopped"]))
    ex.oblige(st, "a stored entry is reported", And(eqt(p.r, v.b.r), eqt(p.o, add(v.bo, ex.u.eoff)), le(0, p.i), lt(p.i, v.n)))
    ex.oblige(st, "only matching entries are reported", C.match(v.row[lift(p.i)]))
    ex.oblige(st, "each entry is reported once", z3.Not(st.ghost["reported"][lift(p.i)]))
    ex.setghost(st, "reported", z3.Store(st.ghost["reported"], lift(p.i), z3.BoolVal(True)))
    go = fresh("go", z3.BoolSort()); ex.setghost(st, "stopped", z3.Not(go)); return go
def h_push(ex, st, ins, args):
    C, p = ex.contract, args[1]; e = lift(ex.read(st, "i64", p))
    ex.oblige(st, "only multiples are given away", C.match(e)); ex.setghost(st, "given", st.ghost["given"] + w(e))

class Insert(DL):
    added = 1
    def post(self, ex, old, st, args, ret):
        v, v0 = V(ex, st, self.l), V(ex, old, self.l)
        return self.wf(ex, st) + [("sorted if asked for", z3.Implies(SORT, v.sorted())), ("content grows by exactly the entry", v.total() == v0.total() + w(self.key)), ("one entry more", eqt(v.n, add(v0.n, 1)))]
class InsertRange(DL):
    rng = True
    def post(self, ex, old, st, args, ret):
        v, v0 = V(ex, st, self.l), V(ex, old, self.l)
        return self.wf(ex, st) + [("sorted if asked for", z3.Implies(SORT, v.sorted())), ("content grows by exactly the range", v.total() == v0.total() + lift(total(ex.row(old, "i64", self.rb.r, self.rb.o), 0, self.len))), ("size grows by the length of the range", eqt(v.n, add(v0.n, self.len)))]
def h_insert(ex, st, ins, args):
    """the contract of insert(entry), proved as d_insert"""
    l, p = args; v0 = V(ex, st, l); e = lift(ex.read(st, "i64", p)); C = ex.contract
    ex.oblige(st, "insert: storage consistent", v0.storage(st)); ex.oblige(st, "insert: masks right", v0.masks(era(st))); ex.oblige(st, "insert: sorted", z3.Implies(SORT, v0.sorted()))
    r = ex.alloc(st); nr = z3.If(fresh("moved", z3.BoolSort()), lift(r.r), lift(v0.b.r)); nb = fresh("lroot", IntS); ex.assume(st, z3.And(nb == nr, nb < lift(st.next)))
    t0 = v0.total(); n0 = v0.n
    ex.write(st, "ptr", v0.pb, PtrV(nb, 0, 0)); ex.write(st, "i64", v0.pn, add(n0, 1))
    if not ex.u.linked:
        cap = fresh("vcap", IntS); ex.assume(st, z3.And(cap >= lift(add(n0, 1)), cap < 2**60)); ex.write(st, "i64", evalfn(ex, st, "specp_c", [l]), cap)
    ex.havoc_row(st, "i64", nb, ex.u.eoff)
    if ex.u.mask: ex.havoc_row(st, "i32", nb, 0)
    ex.write(st, "i64", evalfn(ex, st, "spec_ct", [l]), fresh("ct", IntS)); ex.setghost(st, "era", fresh("era", IntS))
    v = V(ex, st, l); ex.assume(st, [v.masks(era(st)), z3.Implies(SORT, v.sorted()), v.total() == t0 + w(e), v.n_ > 0, nb != 0])
class Remove(DL):
    def match(self, e): return dv(self.key, e)
    def more(self, ex, L, st, v, v0, vE, nm, p, pts):
        out = []; g, g0 = st.ghost["given"], z3.IntVal(0); k = lift(p.i)
        if not ex.u.linked:
            out += [(f"kept before {nm}", forall(1, lambda q: z3.Implies(z3.And(0 <= q, q < k), z3.Not(self.match(v.row[q]))))), (f"masks below {nm}", v.masks(era(st), 0, k)), (f"sorted below {nm}", z3.Implies(SORT, v.sorted(0, k))),
                (f"from {nm} on as before", forall(1, lambda q: z3.Implies(z3.And(k <= q, q < v0.n_), z3.And(v.row[q] == v0.row[q], *([v.mrow[q] == v0.mrow[q]] if ex.u.mask else [])))))]
            for n2, p2 in pts:
                if n2 == nm: continue
                k2 = lift(p2.i)
                out += [(f"content below {nm} and given is content before {n2}", lift(total(v.row, 0, k)) + g == lift(total(v0.row, 0, k2))), (f"{nm} behind {n2}", k < k2),
                    (f"order across {nm} and {n2}", z3.Implies(SORT, forall(2, lambda i, j: z3.Implies(z3.And(0 <= i, i < k, k2 <= j, j < v0.n_), rank(v.row[i]) <= rank(v0.row[j])))))]
        return out
    def post(self, ex, old, st, args, ret):
        v, v0 = V(ex, st, self.l), V(ex, old, self.l)
        return self.wf(ex, st) + [("sorted if asked for", z3.Implies(SORT, v.sorted())), ("no multiple is left", forall(1, lambda q: z3.Implies(z3.And(0 <= q, q < v.n_), z3.Not(self.match(v.row[q]))))),
            ("nothing but the entries given away is missing", v.total() + st.ghost["given"] == v0.total()), ("tells whether anything was removed", lift(ret) == z3.Not(v.n_ == v0.n_)), ("size does not grow", le(v.n, v0.n))]
class RemoveQ(Remove):
    def on_push(self): pass
    def more(self, ex, L, st, v, v0, vE, nm, p, pts): return Remove.more(self, ex, L, st, v, v0, vE, nm, p, pts)
class RemoveElement(DL):
    def match(self, e): return EQE(self.key, e)
    def post(self, ex, old, st, args, ret):
        v, v0 = V(ex, st, self.l), V(ex, old, self.l); k = lift(getattr(ex, "erased", z3.IntVal(0))); r = lift(ret)
        return self.wf(ex, st) + [("sorted if asked for", z3.Implies(SORT, v.sorted())), ("nothing found only if no entry is equal", z3.Implies(z3.Not(r), z3.And(v.n_ == v0.n_, v.row == v0.row, forall(1, lambda q: z3.Implies(z3.And(0 <= q, q < v0.n_), z3.Not(self.match(v0.row[q]))))))),
            ("one equal entry goes", z3.Implies(r, z3.And(v.n_ == v0.n_ - 1, 0 <= k, k < v0.n_, self.match(v0.row[k]), v.total() == v0.total() - w(v0.row[k]))))]
class Keep(DL):
    """content stays"""
    keyarg = None; keepsort = True
    def post(self, ex, old, st, args, ret):
        v, v0 = V(ex, st, self.l), V(ex, old, self.l)
        return self.wf(ex, st) + [("content stays", v.total() == v0.total()), ("size stays", eqt(v.n, v0.n))] + ([("sorted if asked for", z3.Implies(SORT, v.sorted()))] if self.keepsort else [])
class Front(Keep):
    keepsort = False
    def pre2(self, ex, st, args, v):
        ip = evalfn(ex, st, "spec_it", [args[1]]); k = z3.Int("front_pos"); self.k = k; ex.write(st, "ptr", ip, PtrV(lift(v.b.r), 0, k+1 if ex.u.linked else k)); return [0 <= k, k < v.n_, lift(v.b.r) != 0]
    def more(self, ex, L, st, v, v0, vE, nm, p, pts):
        k = lift(p.i)
        return [(f"{nm} not behind the start", k <= self.k), (f"shifted above {nm}", forall(1, lambda q: z3.Implies(z3.And(0 <= q, q < v.n_), z3.And(v.row[q] == z3.If(z3.And(k < q, q <= self.k), v0.row[q-1], v0.row[q]), *([v.mrow[q] == z3.If(z3.And(k < q, q <= self.k), v0.mrow[q-1], v0.mrow[q])] if ex.u.mask else []))))),
            (f"content with the moved entry at {nm}", v.total() - w(v.row[k]) + w(v0.row[self.k]) == v0.total())]
    def post(self, ex, old, st, args, ret):
        v, v0 = V(ex, st, self.l), V(ex, old, self.l)
        return Keep.post(self, ex, old, st, args, ret) + [("the entry is in front", v.row[v.n_-1 if ex.u.linked else 0] == v0.row[self.k])]
class Size(DL):
    keyarg = None
    def post(self, ex, old, st, args, ret): return self.same(ex, old, st) + [("the number of entries", eqt(ret, V(ex, old, self.l).n))]
class Empty(DL):
    keyarg = None
    def post(self, ex, old, st, args, ret): return self.same(ex, old, st) + [("empty exactly without entries", lift(ret) == (V(ex, old, self.l).n_ == 0))]
class Ctor(DL):
    def pre(self, ex, st, args): self.l = args[0]; st.ghost["era"] = z3.Int("era0"); return [lift(args[0].r) != lift(args[1].r)]
    def bounds(self, ex, st, kind, p, what): return []
    def post(self, ex, old, st, args, ret): v = V(ex, st, self.l); return [("a new list is empty", eqt(v.n, 0))]
class Cmp(Contract):
    mono = False
    def pre(self, ex, st, args): return [lift(args[1].r) != 0]
    def post(self, ex, old, st, args, ret):
        a = lift(ex.read(old, "i64", evalfn(ex, old, "spec_mono" if self.mono else "spec_entry", [args[1]]))); b = lift(ex.read(old, "i64", evalfn(ex, old, "spec_entry", [args[2]])))
        return [("the comparer is the order of the configuration", lift(ret) == (rank(a) < rank(b)))]
class CmpM(Cmp): mono = True

# ---- assumed contracts of the containers
def leaves(ex): return [(ex.u.eoff, "i64")] + ([(0, "i32")] if ex.u.mask else [])
def shift_in(ex, st, b, n, k, src, nb):
    """element src is put at place k; the storage afterwards is nb"""
    for off, kind in leaves(ex):
        x = enc(ex.read(st, kind, src.at(off)), kind); old = ex.row(st, kind, b.r, off); row = ex.havoc_row(st, kind, nb, off)
        ex.assume(st, z3.ForAll([J], row[J] == z3.If(J < lift(k), old[J], z3.If(J == lift(k), x, old[J-1])), patterns=[row[J]]))
        if kind == "i64": ex.assume(st, total_f(row, 0, lift(n)+1) == lift(total(old, 0, n)) + w(x))
    ex.lastpos = k
def shift_out(ex, st, b, n, k):
    for off, kind in leaves(ex):
        old = ex.row(st, kind, b.r, off); row = ex.havoc_row(st, kind, b.r, off)
        ex.assume(st, z3.ForAll([J], row[J] == z3.If(J < lift(k), old[J], old[J+1]), patterns=[row[J]]))
        if kind == "i64": ex.assume(st, total_f(row, 0, lift(n)-1) == lift(total(old, 0, n)) - w(z3.Select(old, lift(k))))
    ex.lastpos = k; ex.erased = k
def h_vinsert(ex, st, ins, args):
    p, k, src = args; b, n, c = VecLib.fields(ex, st, p); ex.oblige(st, "insertion inside the vector", And(le(k, n), le(n, c)))
    r = ex.alloc(st); nb = fresh("vroot", IntS); cap = fresh("vcap", IntS)
    ex.assume(st, z3.And(z3.Or(z3.And(nb == lift(b.r), cap == lift(c), lift(n) < lift(c)), z3.And(nb == lift(r.r), cap > lift(n))), cap < 2**60, nb != 0))
    shift_in(ex, st, b, n, k, src, nb); ex.write(st, "ptr", p, PtrV(nb, 0, 0)); ex.write(st, "i64", p.at(8), add(n, 1)); ex.write(st, "i64", p.at(16), cap)
def h_verase(ex, st, ins, args):
    p, k, k2 = args; b, n, c = VecLib.fields(ex, st, p); ex.oblige(st, "erasing one stored element", And(eqt(k2, add(k, 1)), lt(k, n)))
    shift_out(ex, st, b, n, k); ex.write(st, "i64", p.at(8), sub(n, 1))
def lfields(ex, st, p): return ex.read(st, "ptr", p), ex.read(st, "i64", p.at(8))
def h_linsert(ex, st, ins, args):
    p, at, src = args; b, n = lfields(ex, st, p); ex.oblige(st, "insertion at a position of the list", And(eqt(at.r, b.r), eqt(at.o, 0), le(0, at.i), le(at.i, n)))
    shift_in(ex, st, b, n, at.i, src, b.r); ex.write(st, "i64", p.at(8), add(n, 1))
def h_lerase(ex, st, ins, args):
    p, at = args; b, n = lfields(ex, st, p); ex.oblige(st, "an element of the list is erased", And(eqt(at.r, b.r), eqt(at.o, 0), le(0, at.i), lt(at.i, n)))
    shift_out(ex, st, b, n, at.i); ex.write(st, "i64", p.at(8), sub(n, 1))
def h_lfront(ex, st, ins, args):
    p, at = args; b, n = lfields(ex, st, p); k, n = lift(at.i), lift(n); ex.oblige(st, "an element of the list is moved", And(eqt(at.r, b.r), eqt(at.o, 0), le(0, k), lt(k, n)))
    for off, kind in leaves(ex):
        old = ex.row(st, kind, b.r, off); row = ex.havoc_row(st, kind, b.r, off)
        ex.assume(st, z3.ForAll([J], row[J] == z3.If(J == n-1, old[k], z3.If(z3.And(k <= J, J < n-1), old[J+1], old[J])), patterns=[row[J]]))
        if kind == "i64": ex.assume(st, total_f(row, 0, n) == lift(total(old, 0, n)))
    ex.lastpos = k
def h_splice_ok(ex, st, ins, args): ex.oblige(st, "splicing within one list to its front", args[1])
def perm(ex, st, b, lo, hi, desc):
    """the range becomes a sorted permutation of itself"""
    P = z3.Function(fresh("perm", IntS).decl().name(), IntS, IntS); inr = lambda x: z3.And(lift(lo) <= x, x < lift(hi)); i, j = z3.Ints("pi pj")
    for off, kind in leaves(ex):
        old = ex.row(st, kind, b.r, add(b.o, off)); row = ex.havoc_row(st, kind, b.r, add(b.o, off))
        ex.assume(st, z3.ForAll([j], z3.If(inr(j), z3.And(row[j] == old[P(j)], inr(P(j)), T(P(j))), row[j] == old[j]), patterns=[row[j]]))
        if kind == "i64":
            ex.assume(st, total_f(row, lift(lo), lift(hi)) == lift(total(old, lo, hi))); a, c = (j, i) if desc else (i, j)
            ex.assume(st, forall(2, lambda x, y: z3.Implies(z3.And(inr(x), inr(y), x < y), (rank(row[y]) <= rank(row[x])) if desc else (rank(row[x]) <= rank(row[y])))))
def h_sort(ex, st, ins, args):
    b, e = args[0], args[1]; ex.oblige(st, "a range is sorted", And(eqt(b.r, e.r), eqt(b.o, e.o), le(b.i, e.i))); perm(ex, st, b, b.i, e.i, False)
def h_lsort(ex, st, ins, args): b, n = lfields(ex, st, args[0]); perm(ex, st, b, 0, n, True)
def h_upper(ex, st, ins, args):
    b, e, v = args[0], args[1], args[2]; d = ex.u.demangle(ins.extra["callee"][1]); x = lift(ex.read(st, "i64", evalfn(ex, st, "spec_mono" if re.search(r"Extender<long const&", d) else "spec_entry", [v])))
    ex.oblige(st, "a range is searched", And(eqt(b.r, e.r), eqt(b.o, e.o), le(b.i, e.i))); row = ex.row(st, "i64", b.r, add(b.o, ex.u.eoff)); k = fresh("ub", IntS); inr = lambda q: z3.And(lift(b.i) <= q, q < lift(e.i))
    ex.oblige(st, "binary search in a sorted range", forall(2, lambda i, j: z3.Implies(z3.And(inr(i), inr(j), i < j), rank(row[i]) <= rank(row[j]))))
    ex.assume(st, [lift(b.i) <= k, k <= lift(e.i), forall(1, lambda q: z3.Implies(inr(q), z3.If(q < k, rank(row[q]) <= rank(x), rank(x) < rank(row[q]))))]); ex.lastpos = k
    return PtrV(b.r, b.o, k)
def h_less(ex, st, ins, args): return rank(lift(ex.read(st, "i64", args[1]))) < rank(lift(ex.read(st, "i64", args[2])))
def h_divides(ex, st, ins, args): return dv(lift(ex.read(st, "i64", args[1])), lift(ex.read(st, "i64", args[2])))
def h_expo(ex, st, ins, args):
    e, v = lift(ex.read(st, "i64", args[1])), lift(args[2]); ex.oblige(st, "exponents are asked for existing variables", v < VC); t = expo(e, v); ex.assume(st, z3.And(t >= 0, t < 2**32)); return t
def h_compute(ex, st, ins, args): t = MK(era(st), lift(ex.read(st, "i64", args[1]))); ex.assume(st, z3.And(t >= 0, t <= TOP)); return t
def h_rebuild(ex, st, ins, args): ex.setghost(st, "era", fresh("era", IntS))
def h_min(ex, st, ins, args): return ex.fresh_val(st, ir.Ty("int", 64), "rebuildmin")
AUTO = z3.Bool("auto_rebuild_option")
def h_ratio(ex, st, ins, args): return z3.Const("rebuildratio", FpS)
def h_aalloc(ex, st, ins, args): ex.write(st, "ptr", args[0], ex.alloc(st)); ex.write(st, "i64", args[0].at(16), args[1])
def h_need(ex, st, ins, args): ex.oblige(st, "temporary copy stays within its capacity", args[1])
CONF = [(r"Conf::getSortOnInsert\(", lambda ex, st, ins, a: SORT), (r"Conf::getDoAutomaticRebuilds\(", lambda ex, st, ins, a: AUTO), (r"Conf::getRebuildRatio\(", h_ratio), (r"Conf::getRebuildMin\(", h_min), (r"Conf::getVarCount\(", lambda ex, st, ins, a: VC),
    (r"Conf::getExponent\(", h_expo), (r"Conf::divides\(", h_divides), (r"Conf::isLessThan\(", h_less)]
CALC = [(r"DivMask::Calculator<Conf, true>::compute<|MaskType mathic::DivMask::Calculator<Conf, true>::compute|Calculator<Conf, true>::compute", h_compute), (r"DivMask::Calculator<Conf, true>::rebuild(Default)?[<(]", h_rebuild)]
def copied(ex, n, ins, d, s):
    """what a structure copy moves: an entry with its mask, or an iterator"""
    tys = " ".join(alloca_type(ex, p) for p in (d, s))
    if n == 16 and ex.u.mask: return [(0, "i32"), (8, "i64")]
    if n == 8 and not ex.u.mask and "iterator" not in tys and ("Extender" in tys or not any(any(p.r is a.r for a in ex.args if isinstance(a, PtrV)) for p in (d, s))): return [(0, "i64")]
    return None
def alloca_type(ex, p):
    if not is_c(p.r): return ""
    nm = next((k[1] for k, v in ex.gconst.items() if isinstance(k, tuple) and v == p.r), None)
    return next((repr(i.ty) for b in ex.f.order for i in ex.f.blocks[b] if i.op == "alloca" and i.res == nm), "") if nm else ""
def unit(linked, mask, mod=False):
    et = f"mathic::DivMask::Extender<long, {'true' if mask else 'false'}>"; eoff = 8 if mask else 0
    vl = VecLib({et: [(eoff, "i64")] + ([(0, "i32")] if mask else [])})
    hs = CONF + CALC + [(r"Out::proceed\(", h_proceed), (r"Rem::push_back\(", h_push), (r"DummyMultipleOutput::push_back", h_push), (r"std::vector<.*>::vp_insert\(", h_vinsert), (r"std::vector<.*>::vp_erase\(", h_verase), (r"std::list<.*>::vp_insert\(", h_linsert), (r"std::list<.*>::vp_erase\(", h_lerase), (r"std::list<.*>::vp_move_first\(", h_lfront), (r"std::list<.*>::vp_splice_ok", h_splice_ok), (r"std::list<.*>::vp_sort<mathic::Comparer<Conf>", h_lsort),
        (r"std::sort<.*mathic::Comparer<Conf>", h_sort), (r"std::upper_bound<.*mathic::Comparer<Conf>", h_upper), (r"ArenaVector<.*>::vp_alloc", h_aalloc), (r"ArenaVector<.*>::vp_need", h_need), (r"memt::Arena::getArena", lambda ex, st, ins, a: ex.fresh_val(st, ir.Ty("ptr")))] + vl.handlers()
    if mod: hs.append((r"DivList<Conf>::insert\(long const&\)", h_insert))
    d = [f"LINKED={'true' if linked else 'false'}", f"MASK={'true' if mask else 'false'}"]
    if linked: d.append("LINKED_=1")
    if mask: d.append("MASK_=1")
    u = Unit("divlist.cpp", hs, defines=d, flags=["-fdelayed-template-parsing"]); u.linked, u.mask, u.eoff = linked, mask, eoff; u.memcpy_leaves = copied; return u
FIND = [("d_findDivisor", Find), ("d_findDivisorC", Find), ("d_findDivisorIt", Find), ("d_findAllDivisors", FindAll), ("d_findAllDivisorsC", FindAll), ("d_findAllMultiples", FindMult), ("d_findAllMultiplesC", FindMult), ("d_forAll", ForAll), ("d_forAllC", ForAll)]
REM = [("d_insert", Insert), ("d_removeMultiples", Remove), ("d_removeMultiplesQ", RemoveQ), ("d_removeElement", RemoveElement), ("d_moveToFront", Front), ("d_rebuild", Keep), ("d_size", Size), ("d_empty", Empty), ("d_ctor", Ctor)]
CMP = [("d_cmpEE", Cmp), ("d_cmpME", CmpM)]
