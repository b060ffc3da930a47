"""Contracts for PairQueue (R01, R02): columns of pairs merged through a tournament tree whose members are used by contract."""
from .spec import *
from .vec import VecLib
from vcg.unit import Unit
AB, AI = z3.ArraySort(IntS, B), z3.ArraySort(IntS, IntS)
prank = z3.Function("prank", IntS, IntS, IntS)       # the configured order of pairs: (column, row) -> rank
KEEP = z3.Function('keep', IntS, B)
Tp = z3.Function("Tp", IntS, IntS, B)                # instantiation marker: column, position
pi_, pr_, po_ = PtrD.pi, PtrD.pr, PtrD.po
BIG = 65535
class PV:
    """the queue in a state: Q columns in the tournament tree, alive/fc/fr the pair data that exists and the pair it was computed for"""
    def __init__(self, ex, st, q):
        g = st.ghost; self.Q, self.alive, self.fc, self.fr, self.empty, self.top = [g[k] for k in ("Q", "alive", "fc", "fr", "EMPTY", "TOP")]
        self.mp, self.m32, self.m16 = ex.memterm(st, "ptr"), ex.memterm(st, "i32"), ex.memterm(st, "i16"); one = PtrV(1, 0, 0)
        self.ob, self.oe, self.oc = [evalfn(ex, st, f, [one]).o for f in ("specp_begin", "specp_end", "specp_col")]
        if q is not None:
            self.q = q; self.count = lift(ex.read(st, "i64", evalfn(ex, st, "specp_count", [q])))
            if ex.u.retire:
                self.rv = evalfn(ex, st, "spec_retired", [q]); b, n, c = VecLib.fields(ex, st, self.rv); self.rb, self.rn, self.rc = b, lift(n), lift(c); self.rrow = ex.row(st, "i8", b.r, 0)
    def f(self, m, x, o): return z3.Select(z3.Select(m, Blk.mkblk(x, lift(o))), 0)
    def bg(self, x): return self.f(self.mp, x, self.ob)
    def en(self, x): return self.f(self.mp, x, self.oe)
    def bi(self, x): return pi_(self.bg(x))
    def ei(self, x): return pi_(self.en(x))
    def ar(self, x): return pr_(self.bg(x))
    def col(self, x): return self.f(self.m32, x, self.oc)
    def row(self, x, j): b = Blk.mkblk(self.ar(x), 0); return z3.If(self.col(x) >= BIG, self.m32[b][j], self.m16[b][j])
    def head(self, x): return prank(self.col(x), self.row(x, self.bi(x)))
    def ret(self, i): return self.rrow[i] % 2 == 1 if hasattr(self, "rrow") else z3.BoolVal(False)
    def dead(self, x, j): return z3.Or(self.ret(self.col(x)), self.ret(self.row(x, j)))
    def rem(self, x, j): return z3.And(self.Q[x], self.bi(x) <= j, j < self.ei(x))
def allx(arr, f): x = z3.Int("cx"); return z3.ForAll([x], f(x), patterns=[arr[x]])
def allxj(f): x, j = z3.Ints("cx cj"); return z3.ForAll([x, j], f(x, j), patterns=[Tp(x, j)])
def allxjk(f): x, j, k = z3.Ints("cx cj ck"); return z3.ForAll([x, j, k], f(x, j, k), patterns=[z3.MultiPattern(Tp(x, j), Tp(x, k))])
class PQ(Contract):
    qarg = 0; nonempty = False; toplive = True
    def retired_ok(self, ex, st, V):
        if not ex.u.retire: return []
        return [("the retirement marks", And(V.rn == V.count, V.rn <= V.rc, eqt(V.rb.o, 0), eqt(V.rb.i, 0), z3.Implies(V.rc > 0, z3.And(0 < lift(V.rb.r), lift(V.rb.r) < lift(st.next), lift(V.rb.r) != lift(V.q.r)))))]
    def col_ok(self, ex, st, V, x):
        return z3.And(0 < x, x < lift(st.next), x != lift(V.q.r), po_(V.bg(x)) == 0, po_(V.en(x)) == 0, pr_(V.en(x)) == V.ar(x), 0 < V.ar(x), V.ar(x) < lift(st.next), 0 <= V.bi(x), V.bi(x) < V.ei(x), V.alive[x], V.fc[x] == V.col(x), V.fr[x] == V.row(x, V.bi(x)), 0 <= V.col(x), V.col(x) < V.count)
    def wf(self, ex, st, skip=None, top=True, live=None):
        """skip: a column that may be out of order; it and its rows stay as described otherwise"""
        V = PV(ex, st, self.q); sk = (lambda x: z3.BoolVal(False)) if skip is None else (lambda x: x == skip); live = self.toplive if live is None else live
        out = [("columns are well formed and have their pair data", allx(V.Q, lambda x: z3.Implies(z3.And(V.Q[x], z3.Not(sk(x))), self.col_ok(ex, st, V, x)))),
            ("no other pair data exists", allx(V.alive, lambda x: z3.Implies(V.alive[x], V.Q[x]))),
            ("rows are below their column", allxj(lambda x, j: z3.Implies(V.rem(x, j), z3.And(0 <= V.row(x, j), V.row(x, j) < V.col(x))))),
            ("rows of a column descend", allxjk(lambda x, j, k: z3.Implies(z3.And(V.Q[x], V.bi(x) <= j, j <= k, k < V.ei(x)), prank(V.col(x), V.row(x, k)) <= prank(V.col(x), V.row(x, j))))), ("the number of columns fits", z3.And(0 <= V.count, V.count < 2**32))] + self.retired_ok(ex, st, V)
        if top: out += [("the queue has a top unless empty", z3.Implies(z3.Not(V.empty), V.Q[V.top])), ("an empty queue has no columns", allx(V.Q, lambda x: z3.Implies(V.empty, z3.Not(V.Q[x]))))]
        if top and skip is None: out += [("the top is the greatest", allx(V.Q, lambda x: z3.Implies(z3.And(z3.Not(V.empty), V.Q[x]), V.head(x) <= V.head(V.top))))]
        if live and ex.u.retire: out += [("the top is not retired", z3.Implies(z3.Not(V.empty), z3.Not(V.dead(V.top, V.bi(V.top)))))]
        return out
    def ghosts(self, ex, st, q):
        for k, s in (("Q", AB), ("alive", AB), ("fc", AI), ("fr", AI), ("EMPTY", B), ("TOP", IntS)): ex.setghost(st, k, z3.Const("g_" + k, s))
    def pre(self, ex, st, args):
        self.q = args[self.qarg]; self.ghosts(ex, st, self.q); out = []
        ex.write(st, "i64", evalfn(ex, st, "specp_count", [self.q]), z3.Int("q_count"))
        if ex.u.retire: 
            rv = evalfn(ex, st, "spec_retired", [self.q]); ex.write(st, "ptr", rv, PtrV(z3.Int("r_root"), 0, 0)); ex.write(st, "i64", rv.at(8), z3.Int("q_count")); ex.write(st, "i64", rv.at(16), z3.Int("r_cap"))
        out += self.pre1(ex, st, args)
        V = self.V0 = PV(ex, st, self.q); out += [f for _, f in self.wf(ex, st, **self.weak(ex, st, args))]
        if self.nonempty: out.append(z3.Not(V.empty))
        return out + self.pre2(ex, st, args)
    def weak(self, ex, st, args): return {}
    def pre1(self, ex, st, args): return []
    def pre2(self, ex, st, args): return []
    def idx(self, ex, st): return []
    def extra_facts(self, ex, st, g, sk):
        if "Q" not in st.ghost: return []
        V = PV(ex, st, self.q); xs = [s for s in sk if z3.is_int(s)]; V0 = getattr(self, "V0", V); cs = list({z3.simplify(c).get_id(): c for c in xs + [V.top, V0.top] + self.cols(ex, st)}.values()); js = xs + self.idx(ex, st)
        out = [V.Q[c] == V.Q[c] for c in cs] + [z3.Or(p, z3.Not(p)) for c in cs for p in (V.Q[c], V0.Q[c], V.alive[c], V0.alive[c])]
        for c in cs:
            for j in js + [V.bi(c), V0.bi(c)]: out.append(Tp(c, j))
        return out + self.more(ex, st, g, sk)
    def cols(self, ex, st): return []
    def more(self, ex, st, g, sk): return []
    def bounds(self, ex, st, kind, p, what):
        if is_c(p.r) and p.r < 0: return []
        if kind == "i8" and ex.u.retire: V = PV(ex, st, self.q); return [("retirement marks are read and set within their number", And(eqt(p.r, V.rb.r), eqt(p.o, 0), le(0, p.i), lt(p.i, V.rc if what == "write" else V.rn)))]
        return []
    def same(self, ex, old, st, rel=None, kinds=("ptr", "i64", "i32", "i16", "i8")):
        """what remains, compared with the state before"""
        V, V0 = PV(ex, st, self.q), PV(ex, old, self.q)
        return [("queue and memory unchanged", z3.And(V.Q == V0.Q, V.alive == V0.alive, V.fc == V0.fc, V.fr == V0.fr, V.empty == V0.empty, V.top == V0.top, *[ex.memterm(st, k) == ex.memterm(old, k) for k in kinds]))]
def frame(V, V0):
    """columns keep their index, rows and end"""
    return ("columns stay where they are", allxj(lambda x, j: z3.Implies(V.Q[x], z3.And(V.col(x) == V0.col(x), V.ar(x) == V0.ar(x), V.en(x) == V0.en(x), V.row(x, j) == V0.row(x, j)))))
def less(V, V0, top0, b0, exact=True):
    """exactly the pair at (top0, b0) and some retired pairs are gone"""
    return [frame(V, V0), ("nothing appears", allxj(lambda x, j: z3.Implies(V.rem(x, j), V0.rem(x, j)))), ("only the top and retired pairs disappear", allxj(lambda x, j: z3.Implies(z3.And(V0.rem(x, j), z3.Not(V.dead(x, j) if False else V0.dead(x, j)), z3.Not(z3.And(x == top0, j == b0))), V.rem(x, j))))]
# ---- members of the tournament tree, as proved for Q02 (the rank of the top may change while it is at the top)
def newset(ex, st, what, val):
    n = z3.Const(fresh("set_" + what, IntS).decl().name(), AB); ex.assume(st, n == val); ex.setghost(st, what, n); return n
def q_empty(ex, st, ins, args): return st.ghost["EMPTY"]
def q_top(ex, st, ins, args):
    g = st.ghost; ex.oblige(st, "the top is asked for only when there is one", z3.Not(g["EMPTY"])); ex.assume(st, g["Q"][g["TOP"]]); return PtrV(g["TOP"], 0, 0)
def choose(ex, st, C):
    """after a change the tree has some greatest entry on top"""
    e, t = fresh("empty", B), fresh("top", IntS); ex.setghost(st, "EMPTY", e); ex.setghost(st, "TOP", t); Q = st.ghost["Q"]; V = PV(ex, st, C.q)
    ex.assume(st, [z3.Implies(z3.Not(e), Q[t]), allx(Q, lambda x: z3.Implies(e, z3.Not(Q[x]))), allx(Q, lambda x: z3.Implies(z3.And(z3.Not(e), Q[x]), V.head(x) <= V.head(t)))])
def colarg(ex, st, p): return And(eqt(p.o, 0), eqt(p.i, 0))
def ordered(ex, st, C, skip=None):
    V = PV(ex, st, C.q); return allx(V.Q, lambda x: z3.Implies(z3.And(V.Q[x], z3.BoolVal(True) if skip is None else x != skip), V.alive[x]))
def q_push(ex, st, ins, args):
    C = ex.contract; c = lift(args[1].r); V = PV(ex, st, C.q)
    ex.oblige(st, "a new column is queued, with pairs and pair data", z3.And(lift(colarg(ex, st, args[1])), z3.Not(V.Q[c]), V.bi(c) < V.ei(c), V.alive[c])); newset(ex, st, "Q", z3.Store(V.Q, c, z3.BoolVal(True))); choose(ex, st, C); ex.assume(st, z3.Not(st.ghost["EMPTY"]))
    C.pushed = c; ex.assume(st, z3.Or(st.ghost["TOP"] == c, z3.And(z3.Not(V.empty), st.ghost["TOP"] == V.top)))      # proved for TourTree::push
def q_pop(ex, st, ins, args):
    C = ex.contract; g = st.ghost; V = PV(ex, st, C.q); ex.oblige(st, "the top is removed only when there is one", z3.Not(V.empty)); ex.oblige(st, "all other columns have pair data to compare", ordered(ex, st, C, V.top))
    ex.oblige(st, "the pair data of a column is destroyed before it leaves the queue", z3.Not(V.alive[V.top])); newset(ex, st, "Q", z3.Store(V.Q, V.top, z3.BoolVal(False))); choose(ex, st, C)
def q_dec(ex, st, ins, args):
    C = ex.contract; V = PV(ex, st, C.q); ex.oblige(st, "the top is replaced by itself", z3.And(z3.Not(V.empty), lift(args[1].r) == V.top, lift(colarg(ex, st, args[1])))); ex.oblige(st, "the columns have pair data to compare", ordered(ex, st, C)); choose(ex, st, C); ex.assume(st, z3.Not(st.ghost["EMPTY"]))
def q_forall(ex, st, ins, args):
    """every column's pair data is destroyed (proceed is verified on its own)"""
    C = ex.contract; V = PV(ex, st, C.q); n = z3.Const(fresh("set_alive", IntS).decl().name(), AB); ex.assume(st, allx(n, lambda x: n[x] == z3.And(V.alive[x], z3.Not(V.Q[x])))); ex.oblige(st, "columns are destroyed while well formed", ordered(ex, st, C)); ex.setghost(st, "alive", n)
def q_sum(ex, st, ins, args): return None
def q_ctor(ex, st, ins, args): ex.setghost(st, "Q", z3.K(IntS, z3.BoolVal(False))); ex.setghost(st, "EMPTY", z3.BoolVal(True))
# ---- the configuration
def datacol(ex, st, p):
    o = evalfn(ex, st, "specp_data", [PtrV(1, 0, 0)]).o; ex.oblige(st, "the pair data of a column is meant", And(eqt(p.o, o), eqt(p.i, 0))); return lift(p.r)
def c_construct(ex, st, ins, args):
    g = st.ghost; c = datacol(ex, st, args[0]); ex.oblige(st, "pair data is constructed where none exists", z3.Not(g["alive"][c])); newset(ex, st, "alive", z3.Store(g["alive"], c, z3.BoolVal(True)))
    ex.setghost(st, "fc", z3.Store(g["fc"], c, lift(args[1]))); ex.setghost(st, "fr", z3.Store(g["fr"], c, lift(args[2])))
def c_compute(ex, st, ins, args):
    g = st.ghost; C = ex.contract; a = [x for x in args]; c = datacol(ex, st, a[3]); ex.oblige(st, "existing pair data is recomputed", g["alive"][c]); V = PV(ex, st, C.q); ex.oblige(st, "no pair data is computed for a retired index", z3.Not(z3.Or(V.ret(lift(a[1])), V.ret(lift(a[2])))))
    ex.setghost(st, "fc", z3.Store(g["fc"], c, lift(a[1]))); ex.setghost(st, "fr", z3.Store(g["fr"], c, lift(a[2])))
def c_destruct(ex, st, ins, args):
    g = st.ghost; c = datacol(ex, st, args[0]); ex.oblige(st, "only existing pair data is destroyed", g["alive"][c]); ex.oblige(st, "pair data is destroyed for the pair it was computed for", z3.And(g["fc"][c] == lift(args[1]), g["fr"][c] == lift(args[2]))); newset(ex, st, "alive", z3.Store(g["alive"], c, z3.BoolVal(False)))
# ---- contracts
class Inc(PQ):
    """incrementRowIndex: the next row that is not retired, or the end"""
    qarg = 1; toplive = False
    def weak(self, ex, st, args): self.c = lift(args[0].r); return dict(live=False)
    def pre2(self, ex, st, args): V = self.V0; return [V.Q[self.c], self.c != lift(self.q.r), z3.Not(V.ret(V.col(self.c))), V.top == self.c, z3.Not(V.empty)]
    def cols(self, ex, st): return [self.c]
    def idx(self, ex, st): V = PV(ex, st, self.q); return [V.bi(self.c), V.bi(self.c) + 1, self.V0.bi(self.c)] if hasattr(self, "V0") else []
    def moved(self, ex, V, V0, c):
        b, b0, e = V.bi(c), V0.bi(c), V0.ei(c); return [("only its begin changes", z3.And(pr_(V.bg(c)) == pr_(V0.bg(c)), po_(V.bg(c)) == 0))]
    def invs(self, ex, L, st):
        V, V0, c = PV(ex, st, self.q), self.V0, self.c; b, b0, e = V.bi(c), V0.bi(c), V0.ei(c)
        return [("its begin stays in its rows", z3.And(pr_(V.bg(c)) == V0.ar(c), po_(V.bg(c)) == 0, b0 <= b, b < e)), ("rows passed are retired", allxj(lambda x, j: z3.Implies(z3.And(x == c, b0 < j, j <= b), V0.ret(V0.row(c, j))))), ("the field alone changes", z3.Select(V.mp, Blk.mkblk(c, V.ob)) == z3.Store(z3.Select(V0.mp, Blk.mkblk(c, V.ob)), 0, V.bg(c)))]
    def effect(self, ex, V, V0, c):
        b, b0, e = V.bi(c), V0.bi(c), V0.ei(c)
        return [("it moves on", z3.And(pr_(V.bg(c)) == V0.ar(c), po_(V.bg(c)) == 0, b0 < b, b <= e)), ("rows passed are retired", allxj(lambda x, j: z3.Implies(z3.And(x == c, b0 < j, j < b), V0.ret(V0.row(c, j))))),
            ("the new row is not retired", z3.Implies(b < e, z3.Not(V0.ret(V0.row(c, b))))), ("pair data exists exactly if a row is left", V.alive == z3.Store(V0.alive, c, b < e)), ("pair data is computed for the new row", z3.Implies(b < e, z3.And(V.fc[c] == V0.col(c), V.fr[c] == V0.row(c, b))))]
    def post(self, ex, old, st, args, ret):
        V, V0, c = PV(ex, st, self.q), self.V0, self.c; x = z3.Int("other")
        return self.effect(ex, V, V0, c) + [("pair data of other columns stays", z3.Implies(x != c, z3.And(V.fc[x] == V0.fc[x], V.fr[x] == V0.fr[x]))), ("nothing else changes", z3.And(V.mp == z3.Store(V0.mp, Blk.mkblk(c, V.ob), z3.Store(z3.Select(V0.mp, Blk.mkblk(c, V.ob)), 0, V.bg(c))), *[ex.memterm(st, k) == ex.memterm(old, k) for k in ("i64", "i32", "i16", "i8")]))]
def h_inc(ex, st, ins, args):
    """incrementRowIndex as seen by pop (class Inc)"""
    C = ex.contract; c = lift(args[0].r); V0 = PV(ex, st, C.q); g = st.ghost
    ex.oblige(st, "a column of the queue is moved on, which is not retired", z3.And(V0.Q[c], c == V0.top, z3.Not(V0.empty), lift(colarg(ex, st, args[0])), z3.Not(V0.ret(V0.col(c)))))
    for nm, f in C.wf(ex, st, live=False): ex.oblige(st, "the queue is valid when a column is moved on: " + nm, f)
    b = fresh("begin", IntS); nb = PtrV(V0.ar(c), 0, b); ex.write(st, "ptr", PtrV(c, V0.ob, 0), nb)
    newset(ex, st, "alive", z3.Store(g["alive"], c, b < V0.ei(c)))
    for k in ("fc", "fr"): v = fresh(k, IntS); ex.setghost(st, k, z3.Store(g[k], c, v))
    ex.assume(st, [b > V0.bi(c), b <= V0.ei(c)]); ex.assume(st, [f for _, f in Inc().effect(ex, PV(ex, st, C.q), V0, c)]); C.bs = getattr(C, "bs", []) + [b]
class Pop(PQ):
    nonempty = True; toplive = False
    def idx(self, ex, st): return getattr(self, "bs", [])[-2:] + ([self.V0.bi(self.V0.top)] if hasattr(self, "V0") else [])
    def weak(self, ex, st, args): return dict(live=False)
    def invs(self, ex, L, st):
        V, V0 = PV(ex, st, self.q), self.V0; t0, b0 = V0.top, V0.bi(V0.top)
        out = [("valid: " + n, f) for n, f in self.wf(ex, st, live=False)] + less(V, V0, t0, b0) + [("not empty", z3.Not(V.empty)), ("first the top, then retired ones", z3.Or(z3.And(V.top == t0, V.bi(V.top) == b0), z3.And(z3.Not(V.rem(t0, b0)), V.dead(V.top, V.bi(V.top)))))]
        for x, p in phis_of(L, st, "ptr").items(): out.append((f"{x} is the top", z3.And(lift(p.r) == V.top, lift(p.o) == 0, lift(p.i) == 0)))
        return out + [("other memory", z3.And(*[ex.memterm(st, k) == ex.memterm(ex.pre, k) for k in ("i64", "i32", "i16", "i8")])), ("marks stay", peq(V.rb, V0.rb) if ex.u.retire else z3.BoolVal(True))]
    def post(self, ex, old, st, args, ret):
        V, V0 = PV(ex, st, self.q), self.V0; t0, b0 = V0.top, V0.bi(V0.top)
        return self.wf(ex, st, live=True) + less(V, V0, t0, b0) + [("the top is removed", z3.Not(V.rem(t0, b0))), ("retirements stay", V.rrow == V0.rrow if ex.u.retire else z3.BoolVal(True)), ("the number of columns stays", V.count == V0.count)]
class TopCol(PQ):
    nonempty = True
    def post(self, ex, old, st, args, ret):
        V = self.V0; x, j = z3.Ints("any_col any_pos"); ex.assume(st, [Tp(x, j), Tp(x, V.bi(x)), Tp(V.top, V.bi(V.top))])
        return self.same(ex, old, st) + self.result(V, ret) + [("no remaining pair is greater", z3.Implies(V.rem(x, j), prank(V.col(x), V.row(x, j)) <= V.head(V.top))), ("the top is a remaining pair", V.rem(V.top, V.bi(V.top))), ("neither index is retired", z3.Not(V.dead(V.top, V.bi(V.top))))]
    def result(self, V, ret): return [("its column", lift(ret) == V.col(V.top))]
class TopRow(TopCol):
    def result(self, V, ret): return [("its row", lift(ret) == V.row(V.top, V.bi(V.top)))]
class TopData(TopCol):
    def result(self, V, ret): return [("the pair data of the top column", z3.And(lift(ret.r) == V.top, lift(ret.i) == 0)), ("computed for the top pair", z3.And(V.alive[V.top], V.fc[V.top] == V.col(V.top), V.fr[V.top] == V.row(V.top, V.bi(V.top))))]
class Empty(PQ):
    def post(self, ex, old, st, args, ret): V = self.V0; x, j = z3.Ints("any_col any_pos"); ex.assume(st, Tp(x, j)); return self.same(ex, old, st) + [("emptiness is reported", lift(ret) == V.empty), ("empty means no pair remains", z3.Implies(V.empty, z3.Not(V.rem(x, j)))), ("not empty means some pair remains", z3.Implies(z3.Not(V.empty), V.rem(V.top, V.bi(V.top))))]
class Columns(PQ):
    def post(self, ex, old, st, args, ret): return self.same(ex, old, st) + [("the number of columns", lift(ret) == self.V0.count)]
class Retired(PQ):
    def pre2(self, ex, st, args): return [lift(args[1]) < self.V0.count]
    def post(self, ex, old, st, args, ret): return self.same(ex, old, st) + [("retirement is reported", lift(ret) == self.V0.ret(lift(args[1])))]
class Retire(PQ):
    def pre2(self, ex, st, args): self.i = lift(args[1]); return [self.i < self.V0.count]
    def post(self, ex, old, st, args, ret):
        V, V0 = PV(ex, st, self.q), self.V0; i = self.i; x = z3.Int("any_index"); dead = lambda c, j: z3.Or(V0.dead(c, j), V0.col(c) == i, V0.row(c, j) == i)
        return self.wf(ex, st) + [("exactly the index becomes retired", V.ret(x) == z3.Or(V0.ret(x), x == i)), frame(V, V0), ("nothing appears", allxj(lambda x, j: z3.Implies(V.rem(x, j), V0.rem(x, j)))), ("only retired pairs disappear", allxj(lambda x, j: z3.Implies(z3.And(V0.rem(x, j), z3.Not(dead(x, j))), V.rem(x, j)))), ("the number of columns stays", V.count == V0.count)]
    def on_write(self, ex, st, kind, p, v):
        if kind == "i8": row = ex.row(st, "i8", p.r, p.o); nr = fresh("marks", row.sort()); ex.assume(st, nr == row); ex.setrow(st, "i8", p.r, p.o, nr)
def h_pop(ex, st, ins, args):
    """pop as seen by retireIndex (class Pop)"""
    C = ex.contract; V0 = PV(ex, st, C.q)
    for nm, f in C.wf(ex, st, live=False): ex.oblige(st, "pop is called on a valid queue: " + nm, f)
    ex.oblige(st, "pop is called when there is a pair", z3.Not(V0.empty)); 
    mp = z3.Const(fresh("mem_ptr", IntS).decl().name(), ex.memterm(st, "ptr").sort())
    rb = V0.rb; ex.havoc_kind(st, "ptr"); ex.write(st, "ptr", V0.rv, rb)
    for k in ("Q", "alive"): newset(ex, st, k, z3.Const(fresh("set_" + k, IntS).decl().name(), AB))
    for k in ("fc", "fr"): ex.setghost(st, k, z3.Const(fresh(k, IntS).decl().name(), AI))
    ex.setghost(st, "EMPTY", fresh("empty", B)); ex.setghost(st, "TOP", fresh("top", IntS)); V = PV(ex, st, C.q); C.bs = getattr(C, "bs", []) + [V0.bi(V0.top)]
    ex.assume(st, [f for _, f in C.wf(ex, st, live=True) + less(V, V0, V0.top, V0.bi(V0.top))] + [z3.Not(V.rem(V0.top, V0.bi(V0.top)))])
class Dtor(PQ):
    def post(self, ex, old, st, args, ret): V = PV(ex, st, self.q); x = z3.Int("any"); return [("no pair data is left", z3.Not(V.alive[x]))]
class Proceed(PQ):
    """what the destructor does with one column"""
    qarg = 1; toplive = False
    def weak(self, ex, st, args): self.c = lift(args[0].r); return dict(live=False)
    def pre2(self, ex, st, args): return [self.V0.Q[self.c]]
    def cols(self, ex, st): return [self.c]
    def post(self, ex, old, st, args, ret): V, V0 = PV(ex, st, self.q), self.V0; return [("exactly this pair data is destroyed", V.alive == z3.Store(V0.alive, self.c, z3.BoolVal(False))), ("nothing else changes", z3.And(*[ex.memterm(st, k) == ex.memterm(old, k) for k in ("ptr", "i32", "i16", "i8")]))]
class Sum(Contract):
    def pre(self, ex, st, args):
        c = args[0]; r, b, e = z3.Ints("a_root a_begin a_end"); big = ex.u; ex.write(st, "ptr", evalfn(ex, st, "specp_begin", [c]), PtrV(r, 0, b)); ex.write(st, "ptr", evalfn(ex, st, "specp_end", [c]), PtrV(r, 0, e)); self.n = e - b; self.s = lift(ex.read(st, "i64", args[1])); return [0 <= b, b <= e, e < 2**32, self.s < 2**62, lift(args[1].r) != lift(c.r)]
    def post(self, ex, old, st, args, ret): return [("the pairs left in the column are added", lift(ret) == self.s + self.n)]
class Ctor(PQ):
    def pre(self, ex, st, args):
        self.q = args[0]; self.ghosts(ex, st, self.q); x = z3.Int("cx"); a = z3.Const("g_alive", AB); return [lift(args[0].r) != lift(args[1].r), allx(a, lambda x: z3.Not(a[x]))]
    def post(self, ex, old, st, args, ret): V = PV(ex, st, self.q); return self.wf(ex, st) + [("empty", V.empty), ("no columns", V.count == 0)]
    def extra_facts(self, ex, st, g, sk): return []
class Add(PQ):
    def pre1(self, ex, st, args):
        n = self.n = z3.Int("rows"); base = self.base = PtrV(z3.Int("rows_root"), 0, 0)
        for k, v in ((1, base), (2, PtrV(base.r, 0, n))): st.env[ex.f.params[k][1]] = v; args[k] = v
        return [n >= 0, n < 2**32, base.r > 0, base.r < lift(st.next), base.r != lift(self.q.r)] + ([base.r != z3.Int("r_root"), z3.Int("r_cap") < 2**40] if ex.u.retire else [])
    def pre2(self, ex, st, args):
        V = self.V0; s = self.src = ex.row(st, "i64", self.base.r, 0); j, k = z3.Ints("sj sk_"); M = z3.MultiPattern; c = V.count
        return [z3.ForAll([j], z3.Implies(z3.And(0 <= j, j < self.n), z3.And(0 <= s[j], s[j] < c, z3.Not(V.ret(s[j])))), patterns=[s[j]]), z3.ForAll([j, k], z3.Implies(z3.And(0 <= j, j <= k, k < self.n), prank(c, s[k]) <= prank(c, s[j])), patterns=[M(s[j], s[k])])]
    def cols(self, ex, st): return [self.pushed] if hasattr(self, "pushed") else []
    def idx(self, ex, st): return [z3.IntVal(0)] if hasattr(self, "pushed") else []
    def more(self, ex, st, g, sk): return [KEEP(self.src[s]) for s in sk + [z3.IntVal(0)] if z3.is_int(s) and hasattr(self, "src")]
    def invs(self, ex, L, st):
        out = []; init = phis_of(L, L.entry, "ptr"); ph = phis_of(L, st, "ptr")
        for x, p in ph.items():
            i = init.get(x)
            if i is None or not isinstance(p, PtrV): continue
            out += [(f"{x} stays in its array", And(eqt(p.r, i.r), eqt(p.o, i.o), le(i.i, p.i))), (f"{x} within the length", z3.And(0 <= lift(p.i), lift(p.i) <= self.n))]
            for kd in ("i32", "i16"):
                if not i.r is self.base.r:
                    m, b = ex.memterm(st, kd), Blk.mkblk(lift(i.r), lift(i.o)); out.append((f"{kd} memory changes at {x} only", m == z3.Store(ex.memterm(L.entry, kd), b, z3.Select(m, b))))
                    out.append((f"{kd} rows copied up to {x}", z3.Implies(True, (lambda row: z3.ForAll([z3.Int("rj")], z3.Implies(z3.And(0 <= z3.Int("rj"), z3.Int("rj") < lift(p.i)), row[z3.Int("rj")] == self.src[z3.Int("rj")]), patterns=[self.src[z3.Int("rj")]]))(ex.row(st, kd, i.r, i.o)))))
            for y, p2 in ph.items():
                if y < x and isinstance(p2, PtrV): out.append((f"{x} and {y} move together", eqt(p.i, p2.i)))
        return out
    def post(self, ex, old, st, args, ret):
        V, V0 = PV(ex, st, self.q), self.V0; n = self.n; c = getattr(self, "pushed", None); x = z3.Int("any_index")
        out = self.wf(ex, st) + [("one more column", V.count == V0.count + 1), ("no index becomes retired or active", z3.Implies(z3.And(0 <= x, x <= V0.count), V.ret(x) == z3.And(x != V0.count, V0.ret(x))) if ex.u.retire else z3.BoolVal(True))]
        if not ex.valid(n == 0): out += [("the new column holds the rows", z3.And(V.Q[c], z3.Not(V0.Q[c]), V.col(c) == V0.count, V.ei(c) - V.bi(c) == n, V.bi(c) == 0)), ("in their order", z3.Implies(z3.And(0 <= x, x < n), V.row(c, x) == self.src[x]))]
        else: c = z3.IntVal(-1)
        ex.assume(st, z3.Or(self.src[x] == 0, self.src[x] != 0))
        return out + [("other pairs stay", allxj(lambda y, j: z3.Implies(y != c, z3.And(V.rem(y, j) == V0.rem(y, j), z3.Implies(V.Q[y], z3.And(V.col(y) == V0.col(y), V.row(y, j) == V0.row(y, j)))))))]
    def on_throw(self, ex, old, st, args, what): return [("an exception only for too many columns", self.V0.count >= 2**32 - 1), ("the number of columns stays", PV(ex, st, self.q).count == self.V0.count)] + self.same(ex, old, st, kinds=("ptr", "i32", "i16", "i8"))
TT = r"mathic::TourTree<.*QueueConfiguration>::"
def h_arena(ex, st, ins, args): p = ex.alloc(st); ex.assume(st, nbytes(lift(p.r)) == lift(args[1])); return p
def h_release(ex, st, ins, args): ex.oblige(st, "the storage of a queued column is not released", False)
def h_throw(ex, st, ins, args): ex.thrown(st, "overflow_error")
HS = [(TT + r"TourTree\(", q_ctor), (TT + r"empty\(", q_empty), (TT + r"top\(", q_top), (TT + r"push\(", q_push), (TT + r"pop\(", q_pop), (TT + r"decreaseTop\(", q_dec), (r"TourTree<.*forAll<.*ColumnDestructor", q_forall), (r"TourTree<.*forAll<.*ColumnSizeSummer", q_sum), (r"conf_construct\(", c_construct), (r"conf_destruct\(", c_destruct), (r"Conf::computePairData\(", c_compute), (r"Arena::vp_alloc\(", h_arena), (r"Arena::vp_release\(", h_release),
  (r'^__cxa_throw$', h_throw), (r'^__cxa_allocate_exception$', lambda ex, st, ins, a: ex.alloc(st)), (r'^__cxa_free_exception$', nop), (r'^std::(overflow_error|runtime_error|exception)::', nop), (r'^vp_\w+$', lambda ex, st, ins, a: ex.fresh_val(st, ins.ty) if ins.ty.k != 'void' else None)] + NEWDEL + VecLib({"char": [(0, "i8")]}).handlers()
INC, POP = (r"Column::incrementRowIndex\(", h_inc), (r"mathic::PairQueue<Conf>::pop\(", h_pop)
def unit(ret=True, extra=()):
    u = Unit("pairqueue.cpp", HS + list(extra), defines=[] if ret else ["NO_RETIRE"]); u.retire = ret; return u
def fn(s): return lambda u: next((n for n in u.module.fns if s in u.demangle(n) and u.module.fns[n].blocks), "no function " + s)
ORDER = [("", "d_inc", Inc, "incrementRowIndex"), ("inc", "d_pop", Pop, "pop"), ("", "d_top_col", TopCol, "topPair column"), ("", "d_top_row", TopRow, "topPair row"), ("", "d_empty", Empty, "empty"), ("", "d_columns", Columns, "columnCount"), ("", "d_retired", Retired, "retired"), ("pop", "d_retire", Retire, "retireIndex"), ("", "d_add", Add, "addColumnDescending"), ("", "d_ctor", Ctor, "constructor"), ("", "d_sum", Sum, "pairCount of a column")]
DATA = [("", "d_topData", TopData, "topPairData"), ("", "d_dtor", Dtor, "destructor"), ("", "d_destruct", Proceed, "destructor of a column")]
def jobs(L):
    for ret in (True, False):
        for ext, f, c, lab in L:
            if not ret and f == "d_retire": continue
            yield f"pairs{ext}{'' if ret else ' no retirement'}", (lambda ret=ret, ext=ext: unit(ret, {"": [], "inc": [INC], "pop": [INC, POP]}[ext])), f, c, f"PairQueue{'' if ret else ' without retirement'} {lab}"
