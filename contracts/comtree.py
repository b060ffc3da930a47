"""Contracts for ComTree (T01): the complete-tree storage and its index algebra."""
from .spec import *
from vcg.unit import Unit
from .heap import TreeView, MAXN, Grow

def tree_setup(ex, st, t, pfx, raw=False):
    S = ex.u.S
    n, cap, ar = z3.Ints(f"{pfx}_n {pfx}_cap {pfx}_root")
    P = lambda f: evalfn(ex, st, f, [t])
    ex.write(st, "i64", P("specp_last"), mul(n, S)); ex.write(st, "i64", P("specp_cap"), mul(cap, S))
    ex.write(st, "ptr", P("specp_array"), PtrV(ar, 0, -1)); ex.write(st, "ptr", P("specp_keep"), PtrV(ar, 0, 0))
    return [0 <= n, n <= cap, cap <= MAXN, z3.Implies(cap == 0, ar == 0), z3.Implies(cap > 0, z3.And(0 < ar, ar < st.next, *[ar != lift(a.r) for a in ex.args if isinstance(a, PtrV)], nbytes(ar) == 8*cap, z3.Select(live(st), ar)))]

class Base(Contract):
    trees = (0,)          # arguments that hold a valid tree on entry
    fresh_obj = None      # argument that is raw memory to construct into
    def pre(self, ex, st, args):
        live_init(ex, st); out = [z3.Not(z3.Select(live(st), 0))]
        q = z3.Int("q"); ex.assume(st, z3.ForAll([q], z3.Implies(q >= lift(st.next), z3.Not(z3.Select(live(st), q))), patterns=[z3.Select(live(st), q)]))
        ps = [a for a in args if isinstance(a, PtrV)]
        for i in range(len(ps)):
            for j in range(i): out.append(lift(ps[i].r) != lift(ps[j].r))
        roots = []
        for x in out: ex.assume(st, x)
        for k in self.trees:
            for f in tree_setup(ex, st, args[k], f"t{k}"): ex.assume(st, f)
            roots.append(z3.Int(f"t{k}_root"))
        out = []
        for i in range(len(roots)):
            for j in range(i): out.append(z3.Or(roots[i] == 0, roots[i] != roots[j]))
        for p in ps: out.append(z3.Not(z3.Select(live(st), lift(p.r))))     # the objects themselves are not heap storage of a tree
        self.args = args; self.k0 = len(st.ghost)
        return out + self.pre2(ex, st, args)
    def pre2(self, ex, st, args): return []
    def V(self, ex, st, k): return TreeView(ex, st, self.args[k])
    def bounds(self, ex, st, kind, p, what):
        if is_c(p.r) and p.r < 0: return []
        for a in self.args:
            if isinstance(a, PtrV) and (p.r is a.r or (z3.is_expr(p.r) and p.r.eq(a.r))): return []
        if kind != "i64": return [("only the tree and its storage are accessed", False)]
        return [("storage in use", z3.Select(live(st), lift(p.r))), ("access inside the allocated storage", And(eqt(p.o, 0), le(0, p.i), lift(8)*(lift(p.i)+1) <= nbytes(lift(p.r))))]
    def valid(self, ex, st, k):
        v = self.V(ex, st, k)
        return [(f"valid tree: {n}", f) for n, f in v.storage(ex, st, self.args[k])] + [("storage in use is live", Implies(lt(0, v.cap), z3.Select(live(st), lift(v.A.r)))), ("capacity fits the storage", Implies(lt(0, v.cap), le(mul(v.cap, 8), nbytes(lift(v.A.r)))))]
    def same(self, v, vo): return [("size unchanged", eqt(v.n, vo.n)), ("capacity unchanged", eqt(v.cap, vo.cap)), ("same storage", peq(v.A, vo.A)), ("entries unchanged", v.row == vo.row)]
    def nolive(self, old, st): return [("no storage is taken or released", live(st) == live(old))]
    def prefix(self, v, vo, n): return ("entries stay in their places", forall(1, lambda j: z3.Implies(z3.And(0 <= j, j < lift(n)), v.row[j] == vo.row[j])))
    def extra_facts(self, ex, st, g, sk): return seeds(*[s for s in sk if z3.is_int(s)])
    def invs(self, ex, L, st):
        """copy loops: some tree is being filled from another"""
        S = ex.u.S; out = []
        ts = [(f"a{k}", self.args[k]) for k in range(len(self.args)) if isinstance(self.args[k], PtrV)] + self.locals(ex, st)
        views = []
        for nm, p in ts:
            try: views.append((nm, p, TreeView(ex, st, p), TreeView(ex, L.entry, p)))
            except Unsupported: pass
        out.append(("live storage unchanged", live(st) == live(L.entry)))
        for nm, p, v, vE in views:
            out.append((f"{nm}: storage unchanged", And(peq(v.A, vE.A), eqt(v.craw, vE.craw), peq(v.K, vE.K))))
            out.append((f"{nm}: size unchanged", eqt(v.lraw, vE.lraw)))
            out.append((f"{nm}: entries unchanged", v.row == vE.row))
            for x, q in phis_of(L, st, "i64").items():
                qk = idiv(q, S)
                out.append((f"{nm}: {x} aligned", eqt(imod(q, S), 0)))
                out.append((f"{nm}: {x} within size", And(le(1, qk), le(qk, add(v.n, 1)))))
                out.append((f"{nm}: {x} is the size", eqt(v.lraw, sub(q, S))))
                for nm2, p2, v2, vE2 in views:
                    if nm2 == nm: continue
                    out.append((f"{nm}: filled from {nm2} up to {x}", forall(1, lambda j, qk=qk, v=v, v2=v2: z3.Implies(z3.And(0 <= j, j < lift(qk)-1), v.row[j] == v2.row[j]))))
        return out
    def locals(self, ex, st):
        out = []
        for b in ex.f.order:
            for i in ex.f.blocks[b]:
                if i.op == "alloca" and i.ty.k == "named" and i.ty.a.startswith("class.mathic::ComTree") and "Node" not in i.ty.a and i.res in st.env: out.append((i.res, st.env[i.res]))
        return out

class PushBack(Base):
    def pre2(self, ex, st, args):
        v = self.V(ex, st, 0); return [lift(v.cap) <= MAXN//2 - 8]
    def post(self, ex, old, st, args, ret):
        v, vo = self.V(ex, st, 0), self.V(ex, old, 0)
        val = ex.read(old, "i64", args[1])
        full = eqt(vo.n, vo.cap)
        return self.valid(ex, st, 0) + [("one more entry", eqt(v.n, add(vo.n, 1))), self.prefix(v, vo, vo.n), ("the new entry is the last", v.row[lift(vo.n)] == lift(val)),
            ("capacity is kept unless full", Or(full, And(eqt(v.cap, vo.cap), peq(v.A, vo.A)))),
            ("old storage is released, new storage owned, nothing leaks", live_same_but(live(old), live(st), [(vo.A.r, And(full, lt(0, vo.cap)))], [(v.A.r, full)]))]
class PushCap(PushBack):
    def pre2(self, ex, st, args):
        v = self.V(ex, st, 0); return [lift(v.n) < lift(v.cap)]
class PopBack(Base):
    def pre2(self, ex, st, args): return [lift(self.V(ex, st, 0).n) > 0]
    def post(self, ex, old, st, args, ret):
        v, vo = self.V(ex, st, 0), self.V(ex, old, 0)
        return self.valid(ex, st, 0) + [("one entry less", eqt(v.n, sub(vo.n, 1))), ("capacity unchanged", eqt(v.cap, vo.cap)), ("same storage", peq(v.A, vo.A)), self.prefix(v, vo, v.n)] + self.nolive(old, st)
class Swap(Base):
    trees = (0, 1)
    def post(self, ex, old, st, args, ret):
        v, w_, vo, wo = self.V(ex, st, 0), self.V(ex, st, 1), self.V(ex, old, 0), self.V(ex, old, 1)
        return self.valid(ex, st, 0) + self.valid(ex, st, 1) + self.same(v, wo) + self.same(w_, vo) + self.nolive(old, st)
class GrowC(Base):
    def pre2(self, ex, st, args): return [lift(self.V(ex, st, 0).cap) <= MAXN//2 - 8]
    def post(self, ex, old, st, args, ret):
        v, vo = self.V(ex, st, 0), self.V(ex, old, 0)
        return self.valid(ex, st, 0) + [("capacity grows", lt(vo.cap, v.cap)), ("capacity is at most doubled", le(v.cap, add(mul(vo.cap, 2), 16))), ("size stays", eqt(v.n, vo.n)), ("storage is fresh", le(old.next, v.A.r)), self.prefix(v, vo, vo.n),
            ("old storage is released, new storage owned, nothing leaks", live_same_but(live(old), live(st), [(vo.A.r, lt(0, vo.cap))], [(v.A.r, True)]))]
class ClearC(Base):
    def post(self, ex, old, st, args, ret):
        v, vo = self.V(ex, st, 0), self.V(ex, old, 0)
        return self.valid(ex, st, 0) + [("empty afterwards", eqt(v.n, 0))] + [("still owns its storage", peq(v.A, vo.A))] + self.nolive(old, st)
class Ctor(Base):
    trees = ()
    def pre2(self, ex, st, args): return [lift(args[1]) <= MAXN]
    def post(self, ex, old, st, args, ret):
        v = self.V(ex, st, 0)
        return self.valid(ex, st, 0) + [("empty", eqt(v.n, 0)), ("requested capacity", le(args[1], v.cap)), ("nothing else is allocated", live_same_but(live(old), live(st), [], [(v.A.r, lt(0, v.cap))]))]
class Copy(Base):
    trees = (1,)
    def pre2(self, ex, st, args): return [lift(args[2]) <= MAXN]
    def post(self, ex, old, st, args, ret):
        v, s, so = self.V(ex, st, 0), self.V(ex, st, 1), self.V(ex, old, 1)
        return self.valid(ex, st, 0) + self.same(s, so) + [("size of the source", eqt(v.n, so.n)), ("requested capacity", le(args[2], v.cap)), self.prefix(v, so, so.n), ("storage of its own", Implies(lt(0, v.cap), le(old.next, v.A.r))), ("nothing else is allocated", live_same_but(live(old), live(st), [], [(v.A.r, lt(0, v.cap))]))]
class Move(Base):
    trees = (1,)
    def post(self, ex, old, st, args, ret):
        v, s, so = self.V(ex, st, 0), self.V(ex, st, 1), self.V(ex, old, 1)
        return self.valid(ex, st, 0) + self.valid(ex, st, 1) + self.same(v, so) + [("the source is empty", And(eqt(s.n, 0), eqt(s.cap, 0)))] + self.nolive(old, st)
class Dtor(Base):
    def post(self, ex, old, st, args, ret):
        vo = self.V(ex, old, 0)
        return [("exactly the storage is released", live_same_but(live(old), live(st), [(vo.A.r, lt(0, vo.cap))], []))]
def query(nm, f):
    class Q(Base):
        def pre2(self, ex, st, args): return [lift(args[k]) <= MAXN for k in range(1, len(args))]
        def post(self, ex, old, st, args, ret):
            v, vo = self.V(ex, st, 0), self.V(ex, old, 0)
            return self.same(v, vo) + [(nm, f(vo, args, ret))]
    Q.__name__ = nm; return Q
class Get(Base):
    def pre2(self, ex, st, args):
        k, v = z3.Int("k"), self.V(ex, st, 0); self.k = k
        return [lift(args[1]) == k*ex.u.S, 1 <= k, k <= lift(v.n)]
    def post(self, ex, old, st, args, ret):
        v, vo = self.V(ex, st, 0), self.V(ex, old, 0)
        return self.same(v, vo) + [("the entry of that node", lift(ret) == vo.row[self.k-1])]
class Put(Get):
    def post(self, ex, old, st, args, ret):
        v, vo = self.V(ex, st, 0), self.V(ex, old, 0)
        return self.valid(ex, st, 0) + [("only the entry of that node changes", v.row == z3.Store(vo.row, self.k-1, lift(args[2]))), ("size unchanged", eqt(v.n, vo.n))]

def unit(fi):
    u = Unit("comtree.cpp", NEWDEL_LIVE + [(r"ComTree<.*>::increaseCapacity\(", Grow().call)], defines=[f"FI={fi}"], bytegep=8 if fi == "true" else 1)
    u.S = 8 if fi == "true" else 1; return u
def grow_fn(u):
    f = [n for n in u.module.fns if "increaseCapacity" in u.demangle(n)]
    return f[0] if f else "no function increaseCapacity"
JOBS = [("d_pushBack", PushBack), ("d_pushCap", PushCap), ("d_popBack", PopBack), ("d_swap", Swap), (grow_fn, GrowC), ("d_clear", ClearC), ("d_ctor", Ctor), ("d_copy", Copy), ("d_move", Move), ("d_dtor", Dtor), ("d_get", Get), ("d_put", Put),
  ("d_empty", query("empty exactly without entries", lambda v, a, r: lift(r) == (lift(v.n) == 0))), ("d_size", query("size", lambda v, a, r: eqt(r, v.n))), ("d_capacity", query("capacity", lambda v, a, r: eqt(r, v.cap))),
  ("d_free", query("free capacity", lambda v, a, r: lift(r) == (lift(v.cap)-lift(v.n) >= lift(a[1])))), ("d_mem", query("memory use", lambda v, a, r: lift(r) == 8*lift(v.cap))), ("d_last", query("last leaf", lambda v, a, r: eqt(r, v.lraw)))]

# ---- index algebra, for several entry sizes
class Alg(Contract):
    def __init__(self, f, least=1): self.g, self.least = f, least
    def pre(self, ex, st, args):
        S = ex.u.S; self.k = []
        out = []
        for n, a in enumerate([a for a in args if not isinstance(a, PtrV)]):
            k = z3.Int(f"k{n}"); self.k.append(k); out += [lift(a) == k*S, k >= self.least, k <= MAXN]
        if args and isinstance(args[0], PtrV):
            r = z3.Int("root"); self.root = r
            ex.write(st, "ptr", evalfn(ex, st, "spec_parray", [args[0]]) if "spec_parray" in ex.M.fns else PtrV(args[0].r, 0, 0), PtrV(r, 0, -1)); out += [r > 0]
        return out
    def post(self, ex, old, st, args, ret):
        S = ex.u.S; return [("node index", self.g(ret, S, *self.k))]
def alg(f, least=1): return lambda: Alg(f, least)
tr = lambda r, S, *k: lift(r)
slot = lambda r, S, k: And(eqt(r.o, 0), eqt(r.i, sub(k, 1)))
NODE = [("n_parent", alg(lambda r, S, k: lift(r) == (k/2)*S)), ("n_left", alg(lambda r, S, k: lift(r) == 2*k*S)), ("n_right", alg(lambda r, S, k: lift(r) == (2*k+1)*S)),
  ("n_sibling", alg(lambda r, S, k: lift(r) == z3.If(k % 2 == 0, k+1, k-1)*S)), ("n_leftSibling", alg(lambda r, S, k: lift(r) == (k - k % 2)*S)), ("n_next", alg(lambda r, S, k: lift(r) == (k+1)*S, 0)),
  ("n_prev", alg(lambda r, S, k: lift(r) == (k-1)*S)), ("n_inc", alg(lambda r, S, k: lift(r) == (k+1)*S)), ("n_isRoot", alg(lambda r, S, k: lift(r) == (k == 1))), ("n_isLeft", alg(lambda r, S, k: lift(r) == (k % 2 == 0))), ("n_isRight", alg(lambda r, S, k: lift(r) == (k % 2 == 1))),
  ("n_root", alg(lambda r, S: lift(r) == S)), ("n_normal", alg(lambda r, S, k: lift(r) == k, 0)), ("n_less", alg(lambda r, S, a, b: lift(r) == (a < b))), ("n_leq", alg(lambda r, S, a, b: lift(r) == (a <= b))), ("n_eq", alg(lambda r, S, a, b: lift(r) == (a == b))),
  ("n_parent_left", alg(tr)), ("n_parent_right", alg(tr)), ("n_sib_sib", alg(tr)), ("n_sib_lr", alg(tr)), ("n_next_prev", alg(tr)), ("n_prev_next", alg(tr)), ("n_slot", alg(slot)), ("n_cslot", alg(slot))]
class NextN(Contract):
    def pre(self, ex, st, args): self.k = z3.Int("k"); return [lift(args[0]) == self.k*ex.u.S, 0 <= self.k, self.k <= MAXN, lift(args[1]) <= MAXN]
    def post(self, ex, old, st, args, ret): return [("node index", lift(ret) == (self.k+lift(args[1]))*ex.u.S)]
NODE.append(("n_nextn", NextN))
def node_unit(fi, size):
    u = Unit("comtree.cpp", NEWDEL_LIVE, defines=[f"FI={fi}", f"NODE={size}"], bytegep=size if fi == "true" else 1)
    u.S = size if fi == "true" else 1; return u
