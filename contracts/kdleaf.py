"""Contracts for KDEntryArray, the leaf storage of both k-d trees (D04, D05, D06)."""
import re
from .spec import *
from .vec import J
from .mask import TOP, expo, dv, bitand
from . import divlist as D
from .divlist import MK, SORT, VC, EQE, DIFF, V, era, axioms
import vcg.exec as X
from vcg.unit import Unit

ADM = z3.Function("mask_admits", IntS, IntS, B)       # a has no bit that b lacks
def admits(a, b): return ADM(lift(a), lift(b))
def maskaxioms():
    a, b, c = z3.Ints("ma mb mc"); bits = bitand(a, TOP - b)
    return [z3.ForAll([a, b], ADM(a, b) == (bits == 0), patterns=[ADM(a, b)]), z3.ForAll([a, b], ADM(a, b) == (bits == 0), patterns=[bits]),        # definition
            z3.ForAll([a, b, c], z3.Implies(z3.And(ADM(a, b), ADM(b, c)), ADM(a, c)), patterns=[z3.MultiPattern(ADM(a, b), ADM(b, c))]),
            z3.ForAll([a, b, c], z3.Implies(z3.Or(ADM(a, c), ADM(b, c)), ADM(bitand(a, b), c)), patterns=[ADM(bitand(a, b), c)]),
            z3.ForAll([a, b], ADM(MK(a, b), MK(a, b)), patterns=[MK(a, b)])]
class MaskAlgebra:
    """the two facts about masks that the tree proofs use, over 32-bit words"""
    lemma = True
    def prove(self, u):
        a, b, c = z3.BitVecs("a b c", 32); out = []; ad = lambda x, y: x & ~y == 0
        for nm, g in (("admits is transitive", z3.Implies(z3.And(ad(a, b), ad(b, c)), ad(a, c))), ("an intersection admits what either mask admits", z3.Implies(z3.Or(ad(a, c), ad(b, c)), ad(a & b, c))), ("admits is reflexive", ad(a, a)), ("complement in arithmetic: ~y is 2^32-1-y", ~b == z3.BitVecVal(TOP, 32) - b)):
            r = X.prove([], g, 20); out.append(X.Obl("mask algebra, " + nm, r[0] == "ok", "z3 bit-vectors" if r[0] == "ok" else r[0], 0, str(r)))
        return out
class VLeaf(D.VList):
    def __init__(self, ex, st, l):
        u = self.u = ex.u; self.b = evalfn(ex, st, "specp_b", [l]); self.b = PtrV(self.b.r, self.b.o, 0); self.bo = self.b.o; self.pe = evalfn(ex, st, "specp_end", [l]); self.e = ex.read(st, "ptr", self.pe)
        self.n = self.e.i; self.c = u.leaf; self.n_ = lift(self.n)
        self.row = ex.row(st, "i64", self.b.r, add(self.bo, u.eoff)); self.mrow = ex.row(st, "i32", self.b.r, self.bo) if u.mask else None
        self.ptm = evalfn(ex, st, "specp_tm", [l]); self.tm = lift(ex.read(st, "i32", self.ptm)) if u.tmask else None
    def storage(self, st): return And(eqt(self.e.r, self.b.r), eqt(self.e.o, self.bo), le(0, self.n), le(self.n, self.u.leaf))
    def tmask(self, lo=0, hi=None):
        if not self.u.tmask: return True
        hi = self.n_ if hi is None else lift(hi)
        return forall(1, lambda j: z3.Implies(z3.And(lift(lo) <= j, j < hi), admits(self.tm, self.mrow[j])))
def mono(ex, st, p):
    """(value, mask) of a monomial reference"""
    q = evalfn(ex, st, "spec_mono", [p]); return lift(ex.read(st, "i64", q)), (lift(ex.read(st, "i32", p)) if ex.u.mask else None)
class LF(D.DL):
    """a method of a leaf: args[0] is the leaf; keyarg: a monomial reference (kind 'm'), an entry ('e') or a plain monomial ('p')"""
    keykind = "m"; fresh_leaf = False; grows = 0; needs_nonempty = False
    def pre(self, ex, st, args):
        l = self.l = args[0]; st.ghost["era"] = z3.Int("era0"); u = ex.u; out = axioms() + maskaxioms(); n = z3.Int("leaf_n"); pb = evalfn(ex, st, "specp_b", [l]); self.leafroot = l.r
        if not self.fresh_leaf: ex.write(st, "ptr", evalfn(ex, st, "specp_end", [l]), PtrV(pb.r, pb.o, n))
        out += [0 <= n, n <= u.leaf - self.grows, VC >= 0, VC < 2**32] + [lift(l.r) != lift(a.r) for a in args[1:] if isinstance(a, PtrV)]
        if self.needs_nonempty or (u.leaf == 1 and not u.remove and not self.grows): out.append(n > 0)
        if not self.fresh_leaf:
            v = V(ex, st, l); out += [v.masks(era(st)), z3.Implies(SORT, v.sorted()), v.tmask(), total_zero(v.row, 0)]
        if self.keyarg is not None:
            p = args[self.keyarg]
            if self.keykind == "m":
                q = PtrV(z3.Int("key_root"), 0, 0); ex.write(st, "ptr", p.at(8 if u.mask else 0), q); out += [q.r > 0, q.r < st.next] + [q.r != lift(a.r) for a in args if isinstance(a, PtrV)]
                self.key, m = mono(ex, st, p)
                if u.mask: out.append(m == MK(era(st), self.key))
            elif self.keykind == "e":
                self.key = lift(ex.read(st, "i64", evalfn(ex, st, "spec_entry", [p])))
                if u.mask: out.append(lift(ex.read(st, "i32", p)) == MK(era(st), self.key))
            else: self.key = lift(ex.read(st, "i64", p))
        st.ghost["reported"] = z3.K(IntS, z3.BoolVal(False)); st.ghost["stopped"] = z3.BoolVal(False); st.ghost["given"] = z3.IntVal(0); st.ghost["ngiven"] = z3.IntVal(0)
        return out + self.pre2(ex, st, args, V(ex, st, l) if not self.fresh_leaf else None)
    def pre2(self, ex, st, args, v): return []
    def bounds(self, ex, st, kind, p, what):
        if p.r is not self.leafroot or kind not in ("i64", "i32"): return []
        b = evalfn(ex, st, "specp_b", [self.l])
        if not (eqt(p.o, add(b.o, ex.u.eoff)) is True if kind == "i64" else eqt(p.o, b.o) is True and ex.u.mask): return []
        n = ex.read(st, "ptr", evalfn(ex, st, "specp_end", [self.l])).i
        return [("leaf access within its entries", And(le(0, p.i), lt(p.i, n if what == "read" else ex.u.leaf)))]
    def roots(self, ex, st): return [self.leafroot]
    def same(self, ex, old, st):
        v, v0 = V(ex, st, self.l), V(ex, old, self.l)
        return [("the leaf is unchanged", And(peq(v.e, v0.e), v.row == v0.row, *([v.mrow == v0.mrow] if ex.u.mask else []), *([v.tm == v0.tm] if ex.u.tmask else [])))]
    def wf(self, ex, st):
        v = V(ex, st, self.l)
        return [("the end is within the storage", v.storage(st))] + ([("every entry carries its mask", v.masks(era(st)))] if ex.u.mask else []) + ([("the mask of the leaf admits every entry", v.tmask())] if ex.u.tmask else [])
    def invs(self, ex, L, st):
        if self.fresh_leaf and not getattr(self, "ctor", False): return []
        v, v0, vE = V(ex, st, self.l), V(ex, ex.pre, self.l) if not self.fresh_leaf else None, V(ex, L.entry, self.l); out = []; u = ex.u
        out += [("storage", v.storage(st)), ("rows kept", And(v.row == vE.row, *([v.mrow == vE.mrow] if u.mask else []))), ("size kept", eqt(v.n, vE.n)), ("masks", v.masks(era(st))), ("leaf mask", v.tmask()), ("sorted", z3.Implies(SORT, v.sorted())), ("size does not grow", le(v.n, vE.n)),
            ("tree mask kept", v.tm == vE.tm if u.tmask else True), ("content kept", v.total() == vE.total()), ("not stopped", z3.Not(st.ghost["stopped"])), ("reported kept", st.ghost["reported"] == L.entry.ghost["reported"]), ("given", st.ghost["given"] == L.entry.ghost["given"]), ("ngiven", st.ghost["ngiven"] == L.entry.ghost["ngiven"]),
            ("only stored matches reported", forall(1, lambda q: z3.Implies(st.ghost["reported"][q], z3.And(0 <= q, q < v.n_, self.match(v.row[q])))))]
        pts = list(phis_of(L, st, "ptr").items()); rep = st.ghost["reported"]; kk = getattr(ex, "lastpos", None)
        for nm, p in pts:
            k = lift(p.i); out.append((f"{nm} in the leaf", And(eqt(p.r, v.b.r), eqt(p.o, v.bo), le(0, p.i), le(p.i, v.n)))); out.append((f"{nm} before the end", lt(p.i, v.n)))
            bef = lambda f, k=k: forall(1, lambda q: z3.Implies(z3.And(0 <= q, q < k), f(q)))
            if kk is not None: out += [(f"{nm} up to the position found", le(p.i, kk)), (f"{nm} not before the position found", le(kk, p.i))]
            out.append((f"{nm} not the start", le(1, p.i)))
            if self.key is not None: out.append((f"no match before {nm}", bef(lambda q: z3.Not(self.match(v.row[q])))))
            out.append((f"reported before {nm}", bef(lambda q: rep[q] == self.match(v.row[q])))); out.append((f"not reported from {nm} on", forall(1, lambda q: z3.Implies(k <= q, z3.Not(rep[q])))))
            out.append((f"leaf mask before {nm}", v.tmask(0, k)))
            out += self.more(ex, L, st, v, v0, vE, nm, p, pts)
        for nm, x in phis_of(L, st, "i64").items():
            out.append((f"{nm} counts variables", le(x, VC)))
            for pnm, p in pts + [(a, b) for LL in L.outer for a, b in phis_of(LL, st, "ptr").items()]:
                if self.key is not None and self.keykind == "p": out.append((f"equal up to {nm} at {pnm}", forall(1, lambda q: z3.Implies(z3.And(0 <= q, q < lift(x)), expo(self.key, q) == expo(v.row[lift(p.i)], q)))))
        return out
    def more(self, ex, L, st, v, v0, vE, nm, p, pts): return []
    def extra_facts(self, ex, st, g, sk):
        out = []
        for t in rows_in([g] + st.facts[-60:]):
            row, lo, hi = t.arg(0), t.arg(1), t.arg(2); out += [total_zero(row, lo), total_step(row, lo, hi), total_step(row, lo, hi-1)]
        s = [x for x in sk if z3.is_int(x)]; k = getattr(ex, "lastpos", None); base = s + self.idxs(ex, st) + ([lift(k)] if k is not None else []); sd = {}
        if not self.fresh_leaf or getattr(self, "ctor", False): base.append(V(ex, st, self.l).n_)
        for x in base:
            for y in (x-1, x, x+1): y = z3.simplify(y); sd[y.get_id()] = y
        if isinstance(self, RemoveElement):
            for r in (V(ex, st, self.l).row, V(ex, ex.pre, self.l).row):
                for x in self.idxs(ex, st) + s:
                    for y in (x, x-1): t = DIFF(self.key, r[y]); sd[t.get_id()] = t; out.append(EQE(self.key, r[y]) == EQE(self.key, r[y]))
        if self.key is not None and ex.u.mask and not self.fresh_leaf:       # terms that trigger the masking lemma and transitivity
            v = V(ex, st, self.l)
            for x in s + self.idxs(ex, st): out += [MK(era(st), v.row[x]) == MK(era(st), v.row[x])]
        return out + seeds(z3.IntVal(0), *sd.values())
class Find(LF):
    def match(self, e): return dv(e, self.key)
    def post(self, ex, old, st, args, ret):
        v = V(ex, old, self.l); atend = And(eqt(ret.i, v.n))
        return self.same(ex, old, st) + [("a place in the leaf is returned", And(eqt(ret.r, v.b.r), eqt(ret.o, v.bo), le(0, ret.i), le(ret.i, v.n))), ("the end is returned only if no entry divides", Implies(atend, forall(1, lambda q: z3.Implies(z3.And(0 <= q, q < v.n_), z3.Not(self.match(v.row[q])))))),
            ("otherwise an entry that divides", Or(atend, self.match(v.row[lift(ret.i)])))]
class FindAll(Find):
    def post(self, ex, old, st, args, ret):
        v = V(ex, old, self.l); rep = st.ghost["reported"]
        return self.same(ex, old, st) + [("false is returned exactly if the receiver asked to stop", lift(ret) == z3.Not(st.ghost["stopped"])), ("unless stopped, exactly the matching entries are reported", z3.Implies(z3.Not(st.ghost["stopped"]), forall(1, lambda q: z3.Implies(z3.And(0 <= q, q < v.n_), rep[q] == self.match(v.row[q])))))]
class FindMult(FindAll):
    def match(self, e): return dv(self.key, e)
class ForAll(FindAll):
    keyarg = None
    def match(self, e): return z3.BoolVal(True)
class Insert(LF):
    keykind = "e"; grows = 1
    def more(self, ex, L, st, v, v0, vE, nm, p, pts):
        k = lift(p.i); n0 = v0.n_
        return [(f"shifted above {nm}", forall(1, lambda q: z3.Implies(z3.And(0 <= q, q <= n0, q != k), z3.And(v.row[q] == z3.If(q > k, v0.row[q-1], v0.row[q]), *([v.mrow[q] == z3.If(q > k, v0.mrow[q-1], v0.mrow[q])] if ex.u.mask else []))))),
            (f"content without the place {nm}", v.total() - w(v.row[k]) == v0.total())]
    def post(self, ex, old, st, args, ret):
        v, v0 = V(ex, st, self.l), V(ex, old, self.l)
        return self.wf(ex, st) + [("sorted if asked for", z3.Implies(SORT, v.sorted())) if not isinstance(self, Push) else ("appended", And(v.row[v0.n_] == self.key)), ("content grows by exactly the entry", v.total() == v0.total() + w(self.key)), ("one entry more", eqt(v.n, add(v0.n, 1)))] + ([("the mask of the leaf admits what it admitted, and the entry", z3.And(forall(1, lambda q: z3.Implies(admits(v0.tm, q), admits(v.tm, q))), admits(v.tm, MK(era(st), self.key))))] if ex.u.tmask else [])
class Push(Insert): pass
class Pop(LF):
    keyarg = None; needs_nonempty = True
    def post(self, ex, old, st, args, ret):
        v, v0 = V(ex, st, self.l), V(ex, old, self.l)
        return self.wf(ex, st) + [("one entry less", eqt(v.n, sub(v0.n, 1))), ("the others stay", v.row == v0.row)]
class Clear(LF):
    keyarg = None
    def post(self, ex, old, st, args, ret): v = V(ex, st, self.l); return [("no entries are left", eqt(v.n, 0)), ("the end is within the storage", v.storage(st))]
class Recalc(LF):
    keyarg = None
    def pre(self, ex, st, args):
        out = LF.pre(self, ex, st, args); v = V(ex, st, self.l)
        if ex.u.tmask: ex.write(st, "i32", v.ptm, z3.Int("old_leaf_mask")); out += [z3.Int("old_leaf_mask") >= 0, z3.Int("old_leaf_mask") <= TOP]
        return out
    def post(self, ex, old, st, args, ret):
        v, v0 = V(ex, st, self.l), V(ex, old, self.l)
        return self.wf(ex, st) + [("the entries stay", And(peq(v.e, v0.e), v.row == v0.row))]
class Remove(LF):
    def match(self, e): return dv(self.key, e)
    def more(self, ex, L, st, v, v0, vE, nm, p, pts):
        k = lift(p.i); g = st.ghost["given"]; ng = st.ghost["ngiven"]
        out = [(f"kept before {nm}", forall(1, lambda q: z3.Implies(z3.And(0 <= q, q < k), z3.Not(self.match(v.row[q]))))), (f"masks below {nm}", v.masks(era(st), 0, k)), (f"leaf mask below {nm}", v.tmask(0, k)), (f"sorted below {nm}", z3.Implies(SORT, v.sorted(0, k))),
            (f"from {nm} on as before", forall(1, lambda q: z3.Implies(z3.And(k <= q, q < v0.n_), z3.And(v.row[q] == v0.row[q], *([v.mrow[q] == v0.mrow[q]] if ex.u.mask else [])))))]
        for n2, p2 in pts:
            if n2 == nm: continue
            k2 = lift(p2.i)
            out += [(f"content below {nm} and given is content before {n2}", lift(total(v.row, 0, k)) + g == lift(total(v0.row, 0, k2))), (f"{nm} behind {n2}", k < k2), (f"given away between {nm} and {n2}", ng == k2 - k),
                (f"order across {nm} and {n2}", z3.Implies(SORT, forall(2, lambda i, j: z3.Implies(z3.And(0 <= i, i < k, k2 <= j, j < v0.n_), rank(v.row[i]) <= rank(v0.row[j])))))]
        return out
    def invs(self, ex, L, st):
        out = LF.invs(self, ex, L, st); v = V(ex, st, self.l)
        for nm, x in L.entry.env.items():
            if not isinstance(x, (bool, PtrV, list)) and z3.is_expr(x) and z3.is_int(x) and nm not in [a for a, _ in L.phis] and st.env.get(nm) is x: out.append((f"size above {nm}", lt(x, v.n)))
        return out
    def post(self, ex, old, st, args, ret):
        v, v0 = V(ex, st, self.l), V(ex, old, self.l)
        return self.wf(ex, st) + [("sorted if asked for", z3.Implies(SORT, v.sorted())), ("no multiple is left", forall(1, lambda q: z3.Implies(z3.And(0 <= q, q < v.n_), z3.Not(self.match(v.row[q]))))), ("nothing but the entries given away is missing", v.total() + st.ghost["given"] == v0.total()),
            ("the number of removed entries is returned", And(eqt(ret, sub(v0.n, v.n)), lift(ret) == st.ghost["ngiven"]))]
class RemoveElement(LF):
    keykind = "p"
    def match(self, e): return EQE(self.key, e)
    def more(self, ex, L, st, v, v0, vE, nm, p, pts):
        k = lift(p.i); out = []
        for n2, p2 in [(None, PtrV(p.r, p.o, p.i))] + pts:
            # after the match at position m (where the loop was entered), entries from m on move down by one
            m = lift(next((a.i for nn, a in L.entry.env.items() if nn == getattr(self, "itname", None)), p.i))
        E = [lift(a.i) for nn, a in L.entry.env.items() if isinstance(a, PtrV) and nn in self.pn(ex)]
        for m in {z3.simplify(x).get_id(): x for x in E}.values():
            out.append((f"moved down between {z3.simplify(m)} and {nm}", z3.And(m <= k, forall(1, lambda q: z3.Implies(z3.And(0 <= q, q < v0.n_), z3.And(v.row[q] == z3.If(z3.And(m <= q, q < k), v0.row[q+1], v0.row[q]), *([v.mrow[q] == z3.If(z3.And(m <= q, q < k), v0.mrow[q+1], v0.mrow[q])] if ex.u.mask else [])))))))
            out.append((f"content between {z3.simplify(m)} and {nm}", v.total() + w(v0.row[m]) - w(v.row[k]) == v0.total()))
        for n2, p2 in pts:
            if n2 != nm: out.append((f"{n2} right behind {nm}", lift(p2.i) == k + 1))
        return out
    def post(self, ex, old, st, args, ret):
        v, v0 = V(ex, st, self.l), V(ex, old, self.l); r = lift(ret)
        return self.wf(ex, st) + [("sorted if asked for", z3.Implies(SORT, v.sorted())), ("nothing found only if no entry is equal", z3.Implies(z3.Not(r), z3.And(v.n_ == v0.n_, v.row == v0.row, forall(1, lambda q: z3.Implies(z3.And(0 <= q, q < v0.n_), z3.Not(self.match(v0.row[q]))))))),
            ("one equal entry goes", z3.Implies(r, z3.And(v.n_ == v0.n_ - 1, z3.Not(forall(1, lambda m: z3.Not(z3.And(T(m), 0 <= m, m < v0.n_, self.match(v0.row[m]), v.total() == v0.total() - w(v0.row[m]))))))))]
num = lambda x: z3.If(x >= 2**31, x - 2**32, x)
class AllCmp(LF):
    keyarg = None; greater = True
    def ok(self, e): x = num(lift(self.xx)); y = num(expo(e, lift(self.vv))); return x < y if self.greater else y <= x
    def pre2(self, ex, st, args, v): self.vv, self.xx = args[1], args[2]; return [lift(self.vv) < VC]
    def more(self, ex, L, st, v, v0, vE, nm, p, pts): return [(f"all before {nm}", forall(1, lambda q: z3.Implies(z3.And(0 <= q, q < lift(p.i)), self.ok(v.row[q]))))]
    def post(self, ex, old, st, args, ret):
        v = V(ex, old, self.l); return self.same(ex, old, st) + [("true exactly if all entries pass", lift(ret) == forall(1, lambda q: z3.Implies(z3.And(0 <= q, q < v.n_), self.ok(v.row[q]))))]
class AllLess(AllCmp): greater = False
class Ctor(LF):
    fresh_leaf = True; keyarg = None
    def post(self, ex, old, st, args, ret): v = V(ex, st, self.l); return [("a new leaf is empty", And(v.storage(st), eqt(v.n, 0)))] + ([("a new leaf has the full mask", v.tm == TOP)] if ex.u.tmask else [])
class CtorRange(LF):
    """from a range of entries (kind e) or plain entries (kind l)"""
    fresh_leaf = True; ctor = True; keyarg = None; kind = "e"
    def pre2(self, ex, st, args, v):
        b, e = args[1], args[2]; n = z3.Int("rangelen"); e.r, e.o, e.i = b.r, b.o, n; st.env[ex.f.params[2][1]] = e; self.b = b; r = self.src(ex, st)
        return [0 <= n, n <= ex.u.leaf, total_zero(r, 0), lift(b.r) != lift(args[0].r)] + ([forall(1, lambda j: z3.Implies(z3.And(0 <= j, j < n), ex.row(st, "i32", b.r, b.o)[j] == MK(era(st), r[j])))] if self.kind == "e" and ex.u.mask else [])
    def src(self, ex, st): return ex.row(st, "i64", self.b.r, add(self.b.o, ex.u.eoff if self.kind == "e" else 0))
    def invs(self, ex, L, st):
        v = V(ex, st, self.l); n = z3.Int("rangelen"); src = self.src(ex, st); out = [("storage", v.storage(st)), ("masks", v.masks(era(st))), ("leaf mask", v.tmask()), ("range kept", src == self.src(ex, ex.pre))]
        if self.kind == "e" and ex.u.mask: out.append(("range masks kept", ex.row(st, "i32", self.b.r, self.b.o) == ex.row(ex.pre, "i32", self.b.r, self.b.o)))
        for nm, p in phis_of(L, st, "ptr").items():
            k = lift(p.i); out += [(f"{nm} in the range", And(eqt(p.r, self.b.r), eqt(p.o, self.b.o), le(0, p.i), le(p.i, n))), (f"as many entries as {nm} has passed", eqt(v.n, p.i)), (f"content up to {nm}", v.total() == lift(total(src, 0, k))),
                (f"copied before {nm}", forall(1, lambda q: z3.Implies(z3.And(0 <= q, q < k), v.row[q] == src[q])))]
        return out
    def post(self, ex, old, st, args, ret):
        v = V(ex, st, self.l); src = self.src(ex, old); n = z3.Int("rangelen")
        return self.wf(ex, st) + [("sorted if asked for", z3.Implies(SORT, v.sorted())), ("content is that of the range", v.total() == lift(total(src, 0, n))), ("size is that of the range", eqt(v.n, n)), ("unsorted: the same order", z3.Implies(z3.Not(SORT), forall(1, lambda q: z3.Implies(z3.And(0 <= q, q < n), v.row[q] == src[q]))))]
class CtorRangeL(CtorRange): kind = "l"

class Split(Contract):
    """split: see the comment in KDEntryArray.h"""
    kind = "e"; extra = True
    def pre(self, ex, st, args):
        b, e = args[0], args[1]; n = self.n = z3.Int("rangelen"); e.r, e.o, e.i = b.r, b.o, n; st.env[ex.f.params[1][1]] = e; self.b = b; self.pv, self.px = args[2], args[3]; st.ghost["era"] = z3.Int("era0")
        self.x = lift(ex.read(st, "i64", evalfn(ex, st, "spec_entry", [args[5]]))) if self.kind == "e" else None
        if self.kind == "e": self.hasx = z3.Bool("extra_given"); nul = args[5]; nul.r = z3.If(self.hasx, lift(nul.r), z3.IntVal(0)); st.env[ex.f.params[5][1]] = nul; self.x0 = z3.Int("extra_entry"); q = evalfn(ex, st, "spec_entry", [nul]); ex.write(st, "i64", q, self.x0); self.x = self.x0
        else: self.hasx = z3.BoolVal(False); self.x = z3.IntVal(0)
        self.hint = lift(ex.read(st, "i64", self.pv)); rts = [a.r for a in args if isinstance(a, PtrV)]
        self.first = imod(wrapadd(self.hint), VC) if False else z3.If(self.hint == 2**64-1, z3.IntVal(0), (self.hint + 1) % VC)
        e_, v_ = z3.Ints("xe xv")
        return [n > 0, n < 2**56, VC > 0, VC < 2**32, z3.Or(self.hint == 2**64-1, self.hint < VC), 0 <= self.first, self.first < VC, z3.ForAll([e_, v_], z3.And(expo(e_, v_) >= 0, expo(e_, v_) < 2**31), patterns=[expo(e_, v_)]), total_zero(self.row(ex, st), 0)] + ([forall(1, lambda q: z3.Implies(z3.And(0 <= q, q < n), ex.row(st, "i32", b.r, b.o)[q] == MK(era(st), self.row(ex, st)[q])))] if self.kind == "e" and ex.u.mask else []) + [lift(a.r) != lift(c.r) for i, a in enumerate(args) for c in args[:i] if isinstance(a, PtrV) and isinstance(c, PtrV) and a is not args[1] and c is not args[1] and c is not args[0] or (isinstance(a, PtrV) and c is args[0] and a is not args[1])]
    def row(self, ex, st): return ex.row(st, "i64", self.b.r, add(self.b.o, ex.u.eoff if self.kind == "e" else 0))
    def var(self, ex, st): return lift(ex.read(st, "i64", self.pv))
    def ex_(self, ex, st): return lift(ex.read(st, "i32", self.px))
    def seen(self, v, i): f = self.first; return z3.Or(z3.And(f <= v, v < f + i), v < f + i - VC)
    def const(self, ex, st, cond):
        """every variable v with cond(v) has one and the same exponent throughout"""
        r = self.row(ex, st)
        return z3.And(forall(2, lambda v, q: z3.Implies(z3.And(0 <= v, v < VC, cond(v), 0 <= q, q < self.n), expo(r[q], v) == expo(r[0], v))), forall(1, lambda v: z3.Implies(z3.And(0 <= v, v < VC, cond(v), self.hasx), expo(self.x, v) == expo(r[0], v))))
    def some(self, f): return z3.Not(forall(1, lambda q: z3.Not(z3.And(T(q), f(q)))))
    def allocas(self, ex, st): return [st.env[i.res] for b in ex.f.order for i in ex.f.blocks[b] if i.op == "alloca" and i.res in st.env and repr(i.ty) == "i32"]
    def invs(self, ex, L, st):
        r, r0 = self.row(ex, st), self.row(ex, ex.pre); var = self.var(ex, st); out = [("entries kept", r == r0), ("masks kept", ex.row(st, "i32", self.b.r, self.b.o) == ex.row(ex.pre, "i32", self.b.r, self.b.o) if ex.u.mask and self.kind == "e" else True), ("variable kept", var == self.var(ex, L.entry))]
        for nm, i in phis_of(L, st, "i64").items():
            i = lift(i); out += [(f"{nm} variables done", i <= VC), (f"variables before {nm} constant", self.const(ex, st, lambda v: self.seen(v, i))), (f"variable follows {nm}", z3.If(i == 0, var == self.hint, var == z3.If(self.first + i - 1 < VC, self.first + i - 1, self.first + i - 1 - VC)))]
        vals = [(a, num(lift(ex.read(st, "i32", p)))) for a, p in [(str(p.r), p) for p in self.allocas(ex, st)]] + [(nm, num(lift(x))) for nm, x in phis_of(L, st, "i32").items()]
        for nm, p in phis_of(L, st, "ptr").items():
            k = lift(p.i); out.append((f"{nm} in the range", And(eqt(p.r, self.b.r), eqt(p.o, self.b.o), le(0, p.i), le(p.i, self.n))))
            for a, x in vals:
                out.append((f"{a} is not negative", x >= 0)); out += [(f"{a} at most {a2}", x <= y) for a2, y in vals if a2 != a]
                at = lambda q: num(expo(r[q], var)); here = lambda q: z3.Or(z3.And(0 <= q, q < z3.If(k == 0, 1, k), x == at(q)), z3.And(self.hasx, x == num(expo(self.x, var))))
                out += [(f"{a} at most those before {nm}", z3.And(forall(1, lambda q: z3.Implies(z3.And(0 <= q, q < k), x <= at(q))), z3.Implies(self.hasx, x <= num(expo(self.x, var))))), (f"{a} at least those before {nm}", z3.And(forall(1, lambda q: z3.Implies(z3.And(0 <= q, q < k), at(q) <= x)), z3.Implies(self.hasx, num(expo(self.x, var)) <= x))), (f"{a} is an exponent seen before {nm}", self.some(here))]
        return out
    def extra_facts(self, ex, st, g, sk):
        out = []; s = [x for x in sk if z3.is_int(x)]; sd = {}
        for nm, v in st.env.items():
            if nm in self.pn(ex):
                x = v.i if isinstance(v, PtrV) else v
                if not isinstance(x, (bool, list)) and (is_c(x) or z3.is_int(x)): s.append(lift(x))
        for x in s:
            for y in (x, x-1, x+1): y = z3.simplify(y); sd[y.get_id()] = y
        var = self.var(ex, st); sd[var.get_id()] = var
        for x in s[:len([y for y in sk if z3.is_int(y)])]:
            for P in getattr(ex, "perms", []): sd[P(x).get_id()] = P(x)
        return out + seeds(z3.IntVal(0), *sd.values())
    def pn(self, ex):
        if not hasattr(self, "_pn"): self._pn = {i.res for bl in ex.f.order for i in ex.f.blocks[bl] if i.op == "phi"}
        return self._pn
    def post(self, ex, old, st, args, ret):
        r, r0 = self.row(ex, st), self.row(ex, old); var, x = self.var(ex, st), num(self.ex_(ex, st)); k = lift(ret.i); xl = num(expo(self.x, var)) <= x
        return [("a place in the range is returned", And(eqt(ret.r, self.b.r), eqt(ret.o, self.b.o), le(0, ret.i), le(ret.i, self.n))), ("the variable exists", And(le(0, var), lt(var, VC))), ("before it exponents are at most the chosen one", forall(1, lambda q: z3.Implies(z3.And(0 <= q, q < k), num(expo(r[q], var)) <= x))),
            ("from it on they are greater", forall(1, lambda q: z3.Implies(z3.And(k <= q, q < self.n), num(expo(r[q], var)) > x))), ("the low side is not empty", z3.Or(k > 0, z3.And(self.hasx, xl))), ("the high side is not empty", z3.Or(k < self.n, z3.And(self.hasx, z3.Not(xl)))), ("the entries are only rearranged", lift(total(r, 0, self.n)) == lift(total(r0, 0, self.n)))] + ([("every entry keeps its mask", forall(1, lambda q: z3.Implies(z3.And(0 <= q, q < self.n), ex.row(st, "i32", self.b.r, self.b.o)[q] == MK(era(st), r[q]))))] if self.kind == "e" and ex.u.mask else [])
    def on_throw(self, ex, old, st, args, what):
        return [("an exception only if all entries have equal exponents", self.const(ex, old, lambda v: True))]
class SplitL(Split): kind = "l"

def h_push(ex, st, ins, args):
    D.h_push(ex, st, ins, args); v = V(ex, st, ex.contract.l); p = args[1]
    ex.oblige(st, "a stored entry is given away", And(eqt(p.r, v.b.r), eqt(p.o, add(v.bo, ex.u.eoff)), le(0, p.i), lt(p.i, v.n))); ex.setghost(st, "ngiven", st.ghost["ngiven"] + 1)
def pred_at(ex, st, cmp, b, kind, j):
    """the predicate object applied to the element at j"""
    return evalfn(ex, st, "spec_predE" if kind == "e" else "spec_predL", [cmp, PtrV(b.r, b.o, j)])
def h_partition(ex, st, ins, args):
    b, e, cmp = args[0], args[1], args[2]; C = ex.contract; kind = "l" if "<long*" in ex.u.demangle(ins.extra["callee"][1]) else "e"
    ex.oblige(st, "a range is partitioned", And(eqt(b.r, e.r), eqt(b.o, e.o), le(b.i, e.i)))
    P = z3.Function(fresh("perm", IntS).decl().name(), IntS, IntS); lo, hi = lift(b.i), lift(e.i); inr = lambda x: z3.And(lo <= x, x < hi); j = z3.Int("pj"); k = fresh("mid", IntS)
    ex.assume(st, forall(1, lambda q: z3.Implies(inr(q), z3.If(lift(pred_at(ex, st, cmp, b, kind, q)), k > lo, k < hi))))      # as many places before k as entries that pass
    for off, kd in (D.leaves(ex) if kind == "e" else [(0, "i64")]):
        old = ex.row(st, kd, b.r, add(b.o, off)); row = ex.havoc_row(st, kd, b.r, add(b.o, off))
        ex.assume(st, z3.ForAll([j], z3.If(inr(j), z3.And(row[j] == old[P(j)], inr(P(j))), row[j] == old[j]), patterns=[row[j]])); ex.perms = getattr(ex, 'perms', [])[-3:] + [P]
        if kd == "i64": ex.assume(st, total_f(row, lo, hi) == lift(total(old, lo, hi)))
    ex.assume(st, [lo <= k, k <= hi, forall(1, lambda q: z3.Implies(inr(q), lift(pred_at(ex, st, cmp, b, kind, q)) == (q < k)))])
    return PtrV(b.r, b.o, k)
def h_expo(ex, st, ins, args):
    e, v = lift(ex.read(st, "i64", args[1])), lift(args[2])
    if not z3.is_var(e) and "pj" not in str(v): ex.oblige(st, "exponents are asked for existing variables", v < VC) if not getattr(ex, "quiet", False) else None
    t = expo(e, v); return t
def copied(ex, n, ins, d, s):
    if n == 16 and ex.u.mask: return [(0, "i32"), (8, "i64")]
    if n == 8 and not ex.u.mask: return [(0, "i64")]
    return None
def h_throw(ex, st, ins, args): ex.thrown(st, 'duplicate entry')
def h_exc(ex, st, ins, args): return ex.alloc(st)
THROW = [(r'^__cxa_throw$', h_throw), (r'^__cxa_allocate_exception$', h_exc), (r'^__cxa_free_exception$', nop), (r'^std::(logic_error|exception)::~', nop), (r'^vp_\w+$', lambda ex, st, ins, a: ex.fresh_val(st, ins.ty) if ins.ty.k != 'void' else None)]
def unit(leaf=10, mask=True, tmask=True, remove=True):
    hs = [(r"Conf::getExponent\(", h_expo)] + D.CONF + D.CALC + [(r"Out::proceed\(", D.h_proceed), (r"Rem::push_back\(", h_push), (r"std::partition<", h_partition), (r"std::sort<.*mathic::Comparer<Conf>", D.h_sort), (r"std::upper_bound<.*mathic::Comparer<Conf>", D.h_upper)] + THROW
    b = lambda x: "true" if x else "false"
    u = Unit("kdleaf.cpp", hs, defines=[f"LEAF={leaf}", f"MASK={b(mask)}", f"TMASK={b(tmask)}", f"REMOVE={b(remove)}"]); u.linked, u.mask, u.tmask, u.leaf, u.remove, u.eoff, u.view = False, mask, tmask, leaf, remove, 8 if mask else 0, VLeaf; u.memcpy_leaves = copied; return u
VARIANTS = [(10, True, True, True), (1, True, True, True), (1, True, False, False), (10, False, False, True), (10, True, False, False)]
Q = [("d_findDivisor", Find), ("d_findAllDivisors", FindAll)]
M = [("d_findAllMultiples", FindMult), ("d_forAll", ForAll), ("d_removeMultiples", Remove), ("d_removeElement", RemoveElement)]
I = [("d_insert", Insert), ("d_push_back", Push), ("d_pop_back", Pop), ("d_clear", Clear), ("d_recalc", Recalc), ("d_allGreater", AllCmp), ("d_allLess", AllLess), ("d_ctor", Ctor), ("d_ctorE", CtorRange), ("d_ctorL", CtorRangeL), ("d_splitE", Split), ("d_splitL", SplitL)]
