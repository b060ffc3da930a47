"""Contracts for Heap (and the complete-tree storage under it)."""
import re
from .spec import *
from vcg.unit import Unit

MAXN = 1 << 56          # assumed bound on the number of entries (sizes never overflow)

anc = z3.Function("anc", IntS, IntS, B)      # anc(o, k): k is o or an ancestor of o in the complete tree (k = o div 2^i, k >= 1)
def sib(j): return z3.If(lift(j) % 2 == 0, lift(j)+1, lift(j)-1)
def anc_facts(o):
    """true of the ancestor relation by its definition"""
    j, k = z3.Ints("aj ak")
    return [z3.Implies(o >= 1, anc(o, o)),
            z3.ForAll([j], z3.Implies(anc(o, j), z3.And(1 <= j, j <= o, z3.Implies(j >= 2, anc(o, j/2)))), patterns=[T(j)]),
            z3.ForAll([j], z3.Implies(anc(o, j), z3.ForAll([k], z3.Implies(z3.And(anc(o, k), j < k), j <= k/2), patterns=[T(k)])), patterns=[T(j)])]

class TreeView:
    """reads the storage of a complete tree in a state"""
    def __init__(self, ex, st, t):
        self.S = ex.u.S
        self.A = evalfn(ex, st, "spec_array", [t]); self.K = evalfn(ex, st, "spec_keep", [t])
        self.lraw = evalfn(ex, st, "spec_last", [t]); self.craw = evalfn(ex, st, "spec_cap", [t])
        self.n = idiv(self.lraw, self.S); self.cap = idiv(self.craw, self.S)
        self.row = ex.row(st, "i64", self.A.r, self.A.o)
    def storage(self, ex, st, t):
        return [("array pointer is one before the storage", And(eqt(self.A.i, -1), eqt(self.A.o, 0), eqt(self.K.r, self.A.r), eqt(self.K.o, 0), eqt(self.K.i, 0))),
                ("indices are whole entries", And(eqt(imod(self.lraw, self.S), 0), eqt(imod(self.craw, self.S), 0))),
                ("size is within capacity", And(le(0, self.n), le(self.n, self.cap), le(self.cap, MAXN*2))),
                ("storage is allocated iff there is capacity", And(Implies(eqt(self.cap,0), eqt(self.A.r,0)), Implies(lt(0,self.cap), And(lt(0,self.A.r), lt(self.A.r, st.next), Not(eqt(self.A.r, t.r)), le(mul(self.cap, 8), nbytes(lift(self.A.r)))))))]
    def order(self):
        n, row = lift(self.n), self.row
        return forall(1, lambda j: z3.Implies(z3.And(1 <= j, j < n), rank(row[j]) <= rank(row[(j+1)/2 - 1])))

def setup_tree(ex, st, t, prefix="h"):
    """precondition: an arbitrary valid complete tree at t"""
    S = ex.u.S
    n, cap, ar = z3.Ints(f"{prefix}_n {prefix}_cap {prefix}_root")
    P = lambda f: evalfn(ex, st, f, [t])
    ex.write(st, "i64", P("specp_last"), mul(n, S)); ex.write(st, "i64", P("specp_cap"), mul(cap, S))
    ex.write(st, "ptr", P("specp_array"), PtrV(ar, 0, -1)); ex.write(st, "ptr", P("specp_keep"), PtrV(ar, 0, 0))
    return [0 <= n, n <= cap, cap <= MAXN, z3.Implies(cap == 0, ar == 0), z3.Implies(cap > 0, z3.And(0 < ar, ar < st.next, ar != t.r, nbytes(ar) == 8*cap))]

class HeapC(Contract):
    needs_nonempty = False
    range_arg = False
    def pre(self, ex, st, args):
        h = args[0]; t = evalfn(ex, st, "spec_tree", [h]); self.t = t
        fs = setup_tree(ex, st, t)
        for f in fs: ex.assume(st, f)
        v = TreeView(ex, st, t)
        out = [v.order()]
        if self.needs_nonempty: out.append(lift(v.n) > 0)
        if self.range_arg:
            b, e = args[1], args[2]
            e.r, e.o = b.r, b.o; e.i = z3.Int("rangelen"); st.env[ex.f.params[2][1]] = e; self.elen = e.i
            out += [e.i >= 0, e.i <= MAXN, lift(b.r) != lift(v.A.r), lift(b.r) != t.r]
        out += [total_zero(v.row, 0)]
        return out
    def scale(self, ex, L, nm): return ex.u.S if not self.is_entry(ex, nm) else 1      # byte offsets of whole entries
    # valid accesses stay inside the storage
    def bounds(self, ex, st, kind, p, what):
        if kind != "i64" or is_c(p.r): return []
        v = evalfn(ex, st, "spec_array", [self.t])
        if p.r is self.t.r or (z3.is_expr(self.t.r) and p.r.eq(self.t.r)): return []      # the object's own fields
        if self.range_arg and ex.valid(eqt(p.r, self.barg.r)): return [("range access inside the range", And(le(0, p.i), lt(p.i, self.elen), what == "read"))]
        if blk_cmp(p.r, p.o, v.r, v.o) != "eq": return [("access to the storage the queue holds at this time", And(eqt(p.r, v.r), eqt(p.o, v.o)))]
        return [("entry access inside the allocated storage", And(le(0, p.i), lift(8)*(lift(p.i)+1) <= nbytes(lift(p.r))))]
    def lemmas(self, ex, st, g, sk):
        out = []
        for t in rows_in([g] + st.facts[-60:]):
            row, lo, hi = t.arg(0), t.arg(1), t.arg(2)
            out.append(total_zero(row, lo)); out.append(total_step(row, lo, hi)); out.append(total_step(row, lo, hi-1))
        return out
    def extra_facts(self, ex, st, g, sk):
        S = ex.u.S
        out = self.lemmas(ex, st, g, sk)
        base = [lift(idiv(v, S)) for v in self.index_values(ex, st)]
        sds = []
        for s in sk:
            if z3.is_int(s): sds += [s, (s+1)/2 - 1]
        for p in base: sds += [p-1, p/2-1, 2*p-1, 2*p, (p/2)/2 - 1]
        if ex.u.inline_dedup:
            an = getattr(self, "anchors", {}); sds = []
            for s in sk:
                if z3.is_int(s): sds += [s, s+1, s-1, (s+1)/2-1]
            for p in base + list(an.values()): sds += [p, p-1, sib(p)-1, p/2-1, 2*p-1, 2*p]
            for o in an.values(): out += anc_facts(o)
        sd = {}
        for x in sds:
            x = z3.simplify(lift(x)); sd[x.get_id()] = x
        out += seeds(*sd.values())
        return out
    def index_values(self, ex, st):
        vals = {}
        if ex.u.inline_dedup and getattr(self, "curL", None):
            for Lx in self.curL.outer[-1:] + [self.curL]:
                for nm, ty in Lx.phis:
                    for v in (st.env.get(nm), Lx.hdr.get(nm)):
                        if repr(ty) == "i64" and v is not None and not isinstance(v, (bool, PtrV, list)) and not self.is_entry(ex, nm): vals[str(v)] = v
            return list(vals.values())
        en = self.is_entry(ex, "") if not ex.u.inline_dedup else None
        for nm, v in st.env.items():
            if ex.u.inline_dedup and self.is_entry(ex, nm): continue
            if nm in self.phinames(ex) and not isinstance(v, (bool, PtrV, list)) and (is_c(v) or z3.is_int(v)): vals[str(v)] = v
        return list(vals.values())[:8]
    def phinames(self, ex):
        if not hasattr(self, "_pn"):
            self._pn = {i.res for b in ex.f.order for i in ex.f.blocks[b] if i.op == "phi" and repr(i.ty) == "i64"}
        return self._pn
    def invs(self, ex, L, st):
        S = ex.u.S; out = []; self.curL = L
        v = TreeView(ex, st, self.t); vE = TreeView(ex, L.entry, self.t)
        n, row = lift(v.n), v.row
        ph = phis_of(L, st, "i64"); phE = phis_of(L, L.entry, "i64")
        for nm, f in v.storage(ex, st, self.t): out.append(("storage: "+nm, f))
        out.append(("storage is that at entry or newer", Or(eqt(v.A.r, vE.A.r), le(L.entry.next, v.A.r))))
        out.append(("order", v.order()))
        out.append(("sum same", lift(total(row, 0, n)) == lift(total(vE.row, 0, vE.n))))
        for x, p in ph.items():
            if x not in phE or self.is_entry(ex, x): continue
            pk = idiv(p, S); pE = idiv(phE[x], S); pk_, pE_ = lift(pk), lift(pE)
            out.append((f"{x} aligned", eqt(imod(p, S), 0)))
            out.append((f"{x} in tree", And(le(1, pk), le(pk, n))))
            def hole(j, pk=pk_):
                k = j+1; par = k/2
                return z3.Implies(z3.And(1 <= j, j < n), z3.And(
                    z3.Implies(z3.And(k != pk, par != pk), rank(row[j]) <= rank(row[par-1])),
                    z3.Implies(z3.And(par == pk, pk >= 2), rank(row[j]) <= rank(row[pk/2-1]))))
            out.append((f"order but for {x}", forall(1, hole)))
            out.append((f"sum but for {x}", lift(total(row, 0, n)) - w(row[pk_-1]) == lift(total(vE.row, 0, vE.n)) - w(vE.row[pE_-1])))
            for y, val in self.values(ex, L, st):
                out.append((f"below {x} at most {y}", forall(1, lambda j, pk=pk_, val=val: z3.Implies(z3.And(1 <= j, j < n, (j+1)/2 == pk), rank(row[j]) <= rank(lift(val))))))
                valE = L.entry.env.get(y, val)
                if y in ph and not self.is_entry(ex, x): out.append((f"sum with {y} at {x}", lift(total(row, 0, n)) - w(row[pk_-1]) + w(lift(val)) == lift(total(vE.row, 0, vE.n)) - w(vE.row[pE_-1]) + w(lift(valE))))
        if ex.u.inline_dedup: out += self.dedup_invs(ex, L, st, v, vE, n, row, ph)
        return out
    def dedup_invs(self, ex, L, st, v, vE, n, row, ph):
        """combining equal entries: the way from the starting leaf o up to the hole x is shifted down by one
        (I1, I4), and being moved back below the cursor of the inner loop (I2, I3)"""
        S = ex.u.S; out = []
        an = {}
        for Lx in (L.outer + [L])[:1]:
            for nm, ty in Lx.phis:
                q = Lx.entry.env.get(nm)
                if repr(ty) == "i64" and q is not None and not isinstance(q, (bool, PtrV, list)) and not self.is_entry(ex, nm):
                    k = lift(idiv(q, S)); an[f"{nm}@{Lx.header}"] = k
        self.anchors = an
        idx = {x: lift(idiv(p, S)) for x, p in ph.items() if not self.is_entry(ex, x)}
        cur = dict(idx)
        for Lx in L.outer[-1:]:
            for nm, ty in Lx.phis:
                q = st.env.get(nm)
                if repr(ty) == "i64" and nm not in idx and q is not None and z3.is_expr(lift(q)) and not self.is_entry(ex, nm): cur[nm] = lift(idiv(q, S))
        for a, o in an.items():
            out.append((f"{a} is a leaf", And(1 <= o, o <= n, 2*o > n)))
            out.append((f"order away from {a}", forall(1, lambda j: z3.Implies(z3.And(1 <= j, j < n, j+1 != o), rank(row[j]) <= rank(row[(j+1)/2-1])))))
            for x, p in cur.items():
                if x in idx: out.append((f"{x} on the way up from {a}", And(anc(o, p), 1 <= p, p <= o)))
                out.append((f"order if {x} is not {a}", z3.Implies(p != o, v.order())))
                if x in idx:
                    out.append((f"siblings along the way below {x} from {a}", forall(1, lambda j: z3.Implies(z3.And(anc(o, j), p < j, j <= o, sib(j) <= n), rank(row[sib(j)-1]) <= rank(row[j-1])))))
                    out.append((f"copy below {x} on the way from {a}", forall(1, lambda j: z3.Implies(z3.And(anc(o, j), p < j, j/2 == p), row[j-1] == row[p-1]))))
                else:
                    for q0, q in idx.items():
                        out.append((f"{q0} not above {x}", And(p <= q, anc(o, p), 1 <= p, p <= o)))
                        out.append((f"siblings along the way from {q0} to {x} ({a})", forall(1, lambda j: z3.Implies(z3.And(anc(o, j), p < j, j <= q, sib(j) <= n), rank(row[sib(j)-1]) <= rank(row[j-1])))))
                        out.append((f"copy below {x} up to {q0} ({a})", forall(1, lambda j: z3.Implies(z3.And(anc(o, j), p < j, j <= q, j/2 == p), row[j-1] == row[p-1]))))
                        for y, val in self.values(ex, L, st): out.append((f"{y} is the entry at {x} when {q0} gets there", z3.Implies(q == p, lift(val) == row[p-1])))
            for q0, q in idx.items():
                for y, val in self.values(ex, L, st):
                    if y not in ph: continue
                    out.append((f"below {q0} at most {y} but for {a}", forall(1, lambda j: z3.Implies(z3.And(1 <= j, j < n, (j+1)/2 == q, j+1 != o), rank(row[j]) <= rank(lift(val))))))
                    out.append((f"{y} at most {q0}", rank(lift(val)) <= rank(row[q-1])))
        for y, val in self.values(ex, L, st):
            if y in ph: out.append((f"sum and {y}", lift(total(row, 0, n)) + w(lift(val)) == lift(total(vE.row, 0, vE.n)) + w(lift(L.entry.env.get(y, val)))))
        return out
    def values(self, ex, L, st):
        """i64 values that may play the role of the entry in hand"""
        out = []
        for nm, v in L.entry.env.items():
            x = st.env.get(nm, v)
            if isinstance(x, (bool, PtrV, list)) or is_c(x) or not z3.is_expr(x) or not z3.is_int(x): continue
            if self.is_entry(ex, nm): out.append((nm, x))
        return out
    def is_entry(self, ex, nm):
        """SSA values of the entry type: loaded from the entry array, passed in, or merged from such"""
        if not hasattr(self, "_en"):
            en = {"e"}
            for b in ex.f.order:
                for i in ex.f.blocks[b]:
                    if i.op == "call" and i.res and repr(i.ty) == "i64": en.add(i.res)
            src = {}
            geps = {i.res: i for b in ex.f.order for i in ex.f.blocks[b] if i.op == "getelementptr"}
            for b in ex.f.order:
                for i in ex.f.blocks[b]:
                    if i.op == "load" and repr(i.ty) == "i64" and i.args[0][0] == "lv":
                        g = geps.get(i.args[0][1])
                        if g is not None and g.extra["base"].k == "int": en.add(i.res)
            ch = True
            while ch:
                ch = False
                for b in ex.f.order:
                    for i in ex.f.blocks[b]:
                        if i.op == "phi" and i.res not in en and any(v[0] == "lv" and v[1] in en for v, _ in i.extra["inc"]): en.add(i.res); ch = True
            self._en = en
        return nm in self._en
    def common_post(self, ex, old, st, args):
        v = TreeView(ex, st, self.t)
        return v, TreeView(ex, old, self.t), v.storage(ex, st, self.t) + [("no entry exceeds its parent", v.order())]

class Push(HeapC):
    def post(self, ex, old, st, args, ret):
        v, vo, out = self.common_post(ex, old, st, args)
        out.append(("content grows by exactly the pushed entry", lift(total(v.row,0,v.n)) == lift(total(vo.row,0,vo.n)) + w(lift(args[1]))))
        if ex.u.dedup: out.append(("size grows by at most one", And(le(1, v.n), le(v.n, add(vo.n,1)))))
        else: out.append(("size grows by one", eqt(v.n, add(vo.n, 1))))
        return out
class Pop(HeapC):
    needs_nonempty = True
    def rootmax(self, vo):
        n, row = lift(vo.n), vo.row
        j = z3.Int("jmax")
        return j, z3.Implies(z3.And(0 <= j, j < n), rank(row[j]) <= rank(row[0]))
    def post(self, ex, old, st, args, ret):
        v, vo, out = self.common_post(ex, old, st, args)
        ret = lift(ret)
        out.append(("content shrinks by exactly the returned entry", lift(total(v.row,0,v.n)) == lift(total(vo.row,0,vo.n)) - w(ret)))
        if not ex.u.dedup: out.append(("size shrinks by one", eqt(v.n, sub(vo.n, 1))))
        out += self.topmax(ex, st, vo, ret)
        return out
    def topmax(self, ex, st, vo, ret):
        n, row = lift(vo.n), vo.row
        j = fresh("j", IntS)
        P = lambda x: z3.Implies(z3.And(0 <= x, x < n), rank(row[x]) <= rank(row[0]))
        # induction over the position: holds for smaller positions => holds for j
        ex.assume(st, seeds(j, (j+1)/2-1))
        step = z3.Implies(z3.And(0 <= j, z3.Implies(j >= 1, z3.And((j+1)/2-1 >= 0, (j+1)/2-1 < j, P((j+1)/2-1)))), P(j))
        out = [("induction step: an entry is at most the root", step), ("induction: parents precede their children", z3.Implies(j >= 1, z3.And((j+1)/2-1 >= 0, (j+1)/2-1 < j)))]
        k = fresh("k", IntS)
        out.append(("the returned entry is the root, hence a maximum", z3.Implies(P(k), z3.Implies(z3.And(0<=k, k<n), rank(row[k]) <= rank(ret)))))
        return out
class Top(Pop):
    def post(self, ex, old, st, args, ret):
        v, vo, out = self.common_post(ex, old, st, args)
        return out + self.topmax(ex, st, vo, lift(ret)) + [("nothing changes", And(eqt(v.n, vo.n), v.row == vo.row)), ("the top is stored", lift(ret) == v.row[0])]
class Dec(HeapC):
    needs_nonempty = True
    def post(self, ex, old, st, args, ret):
        v, vo, out = self.common_post(ex, old, st, args)
        out.append(("content changes by exactly the replaced top", lift(total(v.row,0,v.n)) == lift(total(vo.row,0,vo.n)) - w(vo.row[0]) + w(lift(args[1]))))
        if not ex.u.dedup: out.append(("size stays", eqt(v.n, vo.n)))
        return out
class Range(HeapC):
    """push(begin, end): begin and end delimit an array of entries outside the queue"""
    range_arg = True
    def src(self, ex, st): b = self.barg; return ex.row(st, "i64", b.r, b.o)
    def pre(self, ex, st, args):
        out = HeapC.pre(self, ex, st, args); self.barg = args[1]
        return out + [total_zero(self.src(ex, st), 0)]
    def invs(self, ex, L, st):
        out = HeapC.invs(self, ex, L, st)
        v = TreeView(ex, st, self.t)
        for nm, p in phis_of(L, st, "ptr").items():
            if isinstance(p, PtrV):
                out.append((f"{nm} in the range", And(eqt(p.r, self.barg.r), eqt(p.o, 0), le(0, p.i), le(p.i, self.elen))))
                vo = TreeView(ex, ex.pre, self.t); s0 = self.src(ex, ex.pre)
                out.append(("range untouched", self.src(ex, st) == s0))
                out.append((f"sum up to {nm}", lift(total(v.row, 0, v.n)) == lift(total(vo.row, 0, vo.n)) + lift(total(s0, 0, p.i))))
                out.append((f"size up to {nm}", eqt(v.n, add(vo.n, p.i))))
        return out
    def post(self, ex, old, st, args, ret):
        v, vo, out = self.common_post(ex, old, st, args)
        out.append(("content grows by exactly the range", lift(total(v.row,0,v.n)) == lift(total(vo.row,0,vo.n)) + lift(total(self.src(ex, old), 0, self.elen))))
        if not ex.u.dedup: out.append(("size grows by the length of the range", eqt(v.n, add(vo.n, self.elen))))
        return out
class Size(HeapC):
    def post(self, ex, old, st, args, ret):
        v, vo, out = self.common_post(ex, old, st, args)
        return out + [("reported size", eqt(ret, vo.n)), ("nothing changes", And(eqt(v.n, vo.n), v.row == vo.row))]
class Empty(HeapC):
    def post(self, ex, old, st, args, ret):
        v, vo, out = self.common_post(ex, old, st, args)
        return out + [("reported emptiness", lift(ret) == (lift(vo.n) == 0)), ("nothing changes", And(eqt(v.n, vo.n), v.row == vo.row))]
class Clear(HeapC):
    def post(self, ex, old, st, args, ret):
        v, vo, out = self.common_post(ex, old, st, args)
        return out + [("empty afterwards", eqt(v.n, 0))]

# ---- growth of the storage: contract used by the callers and checked on its own
class Grow(HeapC):
    """increaseCapacity: more room, same entries, everything else untouched"""
    def pre(self, ex, st, args):
        self.t = args[0]
        for f in setup_tree(ex, st, args[0]): ex.assume(st, f)
        return []
    def bounds(self, ex, st, kind, p, what): return []
    def post(self, ex, old, st, args, ret):
        v, vo = TreeView(ex, st, self.t), TreeView(ex, old, self.t)
        return v.storage(ex, st, self.t) + self.effect(ex, v, vo)
    def effect(self, ex, v, vo):
        return [("capacity grows", lt(vo.cap, v.cap)), ("capacity is at most doubled", le(v.cap, add(mul(vo.cap,2),16))), ("size stays", eqt(v.n, vo.n)), ("storage is fresh", le(self.next0, v.A.r)),
                ("entries stay", forall(1, lambda j: z3.Implies(z3.And(0 <= j, j < lift(vo.n)), v.row[j] == vo.row[j])))]
    next0 = None
    def extra_facts(self, ex, st, g, sk): return seeds(*[s for s in sk if z3.is_int(s)])
    def invs(self, ex, L, st):
        S = ex.u.S; out = []
        vo = TreeView(ex, ex.pre, self.t); v = TreeView(ex, st, self.t)
        out.append(("source untouched", And(eqt(v.lraw, vo.lraw), eqt(v.A.r, vo.A.r), v.row == vo.row)))
        for nm, p in self.locals(ex, st):
            nt = TreeView(ex, st, p); nE = TreeView(ex, L.entry, p)
            out.append((f"{nm}: pointers fixed", And(eqt(nt.A.r, nE.A.r), eqt(nt.A.o, nE.A.o), eqt(nt.A.i, nE.A.i), eqt(nt.craw, nE.craw))))
            for x, q in phis_of(L, st, "i64").items():
                qk = idiv(q, S)
                out.append((f"{x} aligned", eqt(imod(q, S), 0))); out.append((f"{x} range", And(le(1, qk), le(qk, add(vo.n, 1)))))
                out.append((f"{nm} filled to {x}", eqt(nt.lraw, sub(q, S))))
                out.append((f"{nm} copied to {x}", forall(1, lambda j, qk=qk: z3.Implies(z3.And(0 <= j, j < lift(qk)-1), nt.row[j] == vo.row[j]))))
        return out
    def locals(self, ex, st):
        out = []
        for b in ex.f.order:
            for i in ex.f.blocks[b]:
                if i.op == "alloca" and i.ty.k == "named" and i.ty.a.startswith("class.mathic::ComTree") and "Node" not in i.ty.a and i.res in st.env: out.append((i.res, st.env[i.res]))
        return out
    # as a callee
    def call(self, ex, st, ins, args):
        t = args[0]; S = ex.u.S
        v = TreeView(ex, st, t)
        for nm, f in v.storage(ex, st, t): ex.oblige(st, "growing: "+nm, f)
        ex.assume(st, le(v.cap, MAXN - 8))
        P = lambda f: evalfn(ex, st, f, [t])
        cap = fresh("cap", IntS); p = ex.alloc(st); h_del_live(ex, st, ins, [v.K]); live_new(ex, st, p)
        ex.write(st, "i64", P("specp_cap"), mul(cap, S)); ex.write(st, "ptr", P("specp_array"), PtrV(p.r,0,-1)); ex.write(st, "ptr", P("specp_keep"), p)
        row = ex.havoc_row(st, "i64", p.r, 0)
        ex.assume(st, [lift(v.cap) < cap, cap <= 2*lift(v.cap)+16, nbytes(lift(p.r)) == 8*cap,
            forall(1, lambda j: z3.Implies(z3.And(0 <= j, j < lift(v.n)), row[j] == v.row[j]), pat=lambda j: row[j]),
            # equal entries have equal totals (extensionality of the sum, proved by induction in lemmas.py)
            lift(total(row, 0, v.n)) == lift(total(v.row, 0, v.n))])
        return None

class PushCall(HeapC):
    """push(Entry) as seen by its callers; the contract is the one verified for push itself (class Push)"""
    def call(self, ex, st, ins, args):
        S = ex.u.S; t = evalfn(ex, st, "spec_tree", [args[0]]); e = args[1]
        vo = TreeView(ex, st, t)
        for nm, f in vo.storage(ex, st, t): ex.oblige(st, "push is called on a valid queue: "+nm, f)
        ex.oblige(st, "push is called on a valid queue: order", vo.order())
        P = lambda f: evalfn(ex, st, f, [t])
        n, cap = fresh("n", IntS), fresh("cap", IntS); p = ex.alloc(st)
        grown = fresh("grown", z3.BoolSort()); r = z3.If(grown, lift(p.r), lift(vo.A.r))
        ex.assume(st, [1 <= n, n <= cap, n <= lift(vo.n)+1])
        if not ex.u.dedup: ex.assume(st, n == lift(vo.n)+1)
        ex.assume(st, cap <= MAXN*2)      # room: assumed, see ASSUMED
        ex.write(st, "i64", P("specp_last"), mul(n, S)); ex.write(st, "i64", P("specp_cap"), mul(cap, S))
        ex.havoc_row(st, "i64", vo.A.r, 0); ex.havoc_row(st, "i64", p.r, 0)
        rn = fresh("root", IntS); ex.assume(st, rn == r)
        ex.write(st, "ptr", P("specp_array"), PtrV(rn, 0, -1)); ex.write(st, "ptr", P("specp_keep"), PtrV(rn, 0, 0))
        v = TreeView(ex, st, t)
        for nm, f in v.storage(ex, st, t): ex.assume(st, f)
        ex.assume(st, [v.order(), lift(total(v.row, 0, v.n)) == lift(total(vo.row, 0, vo.n)) + w(lift(e))])
        return None

class MoveUp(HeapC):
    """moveValueUp(pos, value) with combination of equal entries.  pos is a leaf whose entry does not count;
    on the way up the path from the leaf o to the hole x is shifted down by one; when an equal entry is met
    the path is put back and the last entry takes the place of the leaf."""
    def pre(self, ex, st, args):
        h = args[0]; t = evalfn(ex, st, "spec_tree", [h]); self.t = t; S = ex.u.S
        for f in setup_tree(ex, st, t): ex.assume(st, f)
        v = TreeView(ex, st, t); o = self.o = z3.Int("leaf"); p = mul(o, S)
        pn = ex.f.params[1][1]; st.env[pn] = p; args[1] = p; self.val = lift(args[2]); self.vE0 = v
        return self.needs(v, o) + [total_zero(v.row, 0)] + anc_facts(o)
    def needs(self, v, o):
        n, row = lift(v.n), v.row
        return [And(1 <= o, o <= n, 2*o > n), forall(1, lambda j: z3.Implies(z3.And(1 <= j, j < n, j+1 != o), rank(row[j]) <= rank(row[(j+1)/2-1])))]
    def effect(self, v, v0, o, val):
        n = lift(v.n)
        return [("no entry exceeds its parent", v.order()), ("content gains exactly the entry in hand", lift(total(v.row, 0, n)) == lift(total(v0.row, 0, v0.n)) - w(v0.row[o-1]) + w(val)), ("no new entries", And(1 <= n, n <= lift(v0.n)))]
    def is_entry(self, ex, nm):
        if not hasattr(self, "_en"):
            r = HeapC.is_entry(self, ex, nm); self._en.add(ex.f.params[2][1]); ch = True
            while ch:
                ch = False
                for b in ex.f.order:
                    for i in ex.f.blocks[b]:
                        if i.op == "phi" and i.res not in self._en and any(v[0] == "lv" and v[1] in self._en for v, _ in i.extra["inc"]): self._en.add(i.res); ch = True
        return nm in self._en
    def invs(self, ex, L, st):
        S = ex.u.S; out = []; o = self.o; v = TreeView(ex, st, self.t); v0 = self.vE0; n, row = lift(v.n), v.row; self.curL = L
        for nm, f in v.storage(ex, st, self.t): out.append(("storage: "+nm, f))
        out += [("same storage", And(eqt(v.A.r, v0.A.r), eqt(v.craw, v0.craw))), ("no new entries", n <= lift(v0.n)), ("leaf", And(1 <= o, o <= n, 2*o > n))]
        out.append(("order away from the leaf", forall(1, lambda j: z3.Implies(z3.And(1 <= j, j < n, j+1 != o), rank(row[j]) <= rank(row[(j+1)/2-1])))))
        e0 = TreeView(ex, L.entry, self.t); out += [("entry at the leaf stays", row[o-1] == e0.row[o-1]), ("size stays", n == lift(e0.n))]
        idx = {}; ents = {}
        for Lx in L.outer + [L]:
            for nm, ty in Lx.phis:
                q = st.env.get(nm)
                if repr(ty) != "i64" or q is None: continue
                if self.is_entry(ex, nm): ents[nm] = (lift(q), Lx is L)
                else: idx[nm] = (lift(idiv(q, S)), Lx is L)
        S0 = lift(total(v0.row, 0, v0.n)) - w(v0.row[o-1]) + w(self.val)
        for x, (p, own) in idx.items():
            if own: out += [(f"{x} aligned", eqt(imod(st.env[x], S), 0)), (f"{x} on the way up from the leaf", And(anc(o, p), 1 <= p, p <= o)), (f"{x} is the leaf", p == o)]
            if own or len(idx) > 1:
                out.append((f"order if {x} is not the leaf", z3.Implies(p != o, v.order())))
            for y, (val, ownv) in ents.items():
                if not (own or ownv): continue
                out += [(f"sum with {y} at {x}", lift(total(row, 0, n)) - w(row[p-1]) + w(val) == S0), (f"{y} exceeds the entry at {x} above the leaf", z3.Implies(p != o, rank(row[p-1]) < rank(val))),
                        (f"sum with {y} at the leaf and {x}", lift(total(row, 0, n)) + w(val) - w(row[o-1]) == S0)]
            if own: 
                out.append((f"siblings on the way below {x}", forall(1, lambda j: z3.Implies(z3.And(anc(o, j), p < j, j <= o, sib(j) <= n), rank(row[sib(j)-1]) <= rank(row[j-1])))))
                out.append((f"copy below {x}", forall(1, lambda j: z3.Implies(z3.And(anc(o, j), p < j, j/2 == p), row[j-1] == row[p-1]))))
        for x, (p, o1) in idx.items():
            for z, (q, o2) in idx.items():
                if x == z or o1 or not o2: continue      # p: the hole (of an enclosing loop), q: the cursor on the way back
                out += [(f"{z} not above {x}", And(p <= q, 2*p <= o)), (f"{z} above the leaf", 2*q <= o), (f"entry at {x} stays", row[p-1] == e0.row[p-1]), (f"siblings on the way from {z} to {x}", forall(1, lambda j: z3.Implies(z3.And(anc(o, j), p < j, j <= q, sib(j) <= n), rank(row[sib(j)-1]) <= rank(row[j-1])))),
                        (f"copy below {x} up to {z}", forall(1, lambda j: z3.Implies(z3.And(anc(o, j), p < j, j <= q, j/2 == p), row[j-1] == row[p-1])))]
                for y, (val, ov) in ents.items():
                    if not ov: continue
                    out += [(f"{y} is the entry at {x} when {z} gets there", z3.Implies(q == p, val == row[p-1])), (f"below {z} at most {y} but for the leaf", forall(1, lambda j: z3.Implies(z3.And(1 <= j, j < n, (j+1)/2 == q, j+1 != o), rank(row[j]) <= rank(val)))), (f"{y} at most the entry at {z}", rank(val) <= rank(row[q-1])),
                            (f"sum and {y}", lift(total(row, 0, n)) + w(val) == lift(total(e0.row, 0, e0.n)) + w(lift(L.entry.env.get(y, val))))]
        return out
    def extra_facts(self, ex, st, g, sk):
        out = self.lemmas(ex, st, g, sk); S = ex.u.S; o = self.o; sds = []
        for s in sk:
            if z3.is_int(s): sds += [s, s+1, s-1, (s+1)/2-1, (s+1)/2]
        base = [o]
        if getattr(self, "curL", None):
            for Lx in self.curL.outer + [self.curL]:
                for nm, ty in Lx.phis:
                    for v in (st.env.get(nm), Lx.hdr.get(nm)):
                        if repr(ty) == "i64" and v is not None and not isinstance(v, (bool, PtrV, list)) and not self.is_entry(ex, nm): base.append(lift(idiv(v, S)))
        for p in base: sds += [p, p-1, sib(p)-1, p/2-1, 2*p-1, 2*p, p/2, sib(p), 2*p+1]
        sd = {}
        for x in sds: x = z3.simplify(lift(x)); sd[x.get_id()] = x
        return out + seeds(*sd.values())
    def post(self, ex, old, st, args, ret):
        v = TreeView(ex, st, self.t)
        return v.storage(ex, st, self.t) + self.effect(v, self.vE0, self.o, self.val) + [("the storage is not replaced", And(eqt(v.A.r, self.vE0.A.r), eqt(v.craw, self.vE0.craw)))]
    # as a callee
    def call(self, ex, st, ins, args):
        S = ex.u.S; t = evalfn(ex, st, "spec_tree", [args[0]]); v0 = TreeView(ex, st, t); o = lift(idiv(args[1], S)); val = lift(args[2])
        for nm, f in v0.storage(ex, st, t): ex.oblige(st, "an entry is moved up in a valid tree: "+nm, f)
        for nm, f in zip(("it starts at a leaf", "all else is in order"), self.needs(v0, o)): ex.oblige(st, "an entry is moved up in a valid tree: "+nm, f)
        ex.oblige(st, "an entry is moved up in a valid tree: position", eqt(imod(args[1], S), 0))
        n = fresh("n", IntS); ex.assume(st, [0 <= n, n < 2**57]); P = lambda f: evalfn(ex, st, f, [t])
        ex.write(st, "i64", P("specp_last"), mul(n, S)); ex.havoc_row(st, "i64", v0.A.r, v0.A.o); v = TreeView(ex, st, t)
        for nm, f in v.storage(ex, st, t) + self.effect(v, v0, o, val): ex.assume(st, f)
        return None

def heap_unit(fi, dedup, modular=False, moveup=False):
    g = Grow()
    u = Unit("heap.cpp", CONF_Q + NEWDEL + ([(r"Heap<.*>::push\(long\)$", PushCall().call)] if modular else []) + ([(r"Heap<.*>::moveValueUp\(", MoveUp().call)] if moveup else []) + [(r"ComTree<.*>::increaseCapacity\(", g.call)], defines=[f"FI={fi}", f"DEDUP={dedup}"] + (["MODULAR"] if modular else []), bytegep=8 if fi=="true" else 1)
    u.S = 8 if fi == "true" else 1; u.dedup = dedup == "true"; u.inline_dedup = u.dedup and not moveup; u.assume_room = True
    return u
def moveup_name(u):
    for n in u.module.fns:
        if re.search(r"Heap<.*>::moveValueUp\(", u.demangle(n)): return n
    raise Unsupported("moveValueUp is gone")
