"""Contracts for TourTree (Q02): a tree of matches over a vector of players."""
from .spec import *
from .vec import VecLib
from vcg.unit import Unit
MAXN = 1 << 56
anc = z3.Function("anc", IntS, IntS, B)          # anc(j, k): k is j or an ancestor of j (k = j div 2^i, k >= 1)
odd = z3.Function("oddpart", IntS, IntS)         # oddpart(2k) = oddpart(k), oddpart(2k+1) = 2k+1
pi_, pr_, po_ = PtrD.pi, PtrD.pr, PtrD.po
MARKS = [[z3.Function(f"{n}{s_}", IntS, B) for n in ("Tn", "T2", "T3", "Ta")] for s_ in ("", "_now")]      # instantiation markers: nodes, pairs of nodes, players, upper nodes
def sib(j): return z3.If(j % 2 == 0, j+1, j-1)
def axioms():
    i, j, k = z3.Ints("ai aj ak"); M = z3.MultiPattern
    return [z3.ForAll([j, k], z3.Implies(anc(j, k), z3.And(1 <= k, k <= j)), patterns=[anc(j, k)]),
        z3.ForAll([i, j, k], z3.Implies(z3.And(anc(i, j), anc(j, k)), anc(i, k)), patterns=[M(anc(i, j), anc(j, k))]),
        z3.ForAll([i, j, k], z3.Implies(z3.And(anc(i, j), anc(i, k), k <= j), anc(j, k)), patterns=[M(anc(i, j), anc(i, k))])]
def ground(j):
    """the ancestor relation and the odd part at one index"""
    return [z3.Implies(j >= 1, anc(j, j)), z3.Implies(j >= 1, z3.And(anc(2*j, j), anc(2*j+1, j))), z3.Implies(j >= 2, anc(j, j/2)), z3.Implies(j >= 1, anc(j, 1)), odd(2*j) == odd(j), z3.Implies(j % 2 == 1, odd(j) == j), z3.Implies(z3.And(j % 2 == 0), odd(j) == odd(j/2))]
def pair(j, k):
    """between different nodes of one branch there is a child of the upper and the parent of the lower"""
    return z3.Implies(z3.And(anc(j, k), j != k), z3.And(anc(j/2, k), z3.Or(anc(j, 2*k), anc(j, 2*k+1))))
class Lemmas(Contract):
    """the facts about ancestors, by induction over j: anc(j,k) iff k >= 1 and (k = j or (j >= 2 and anc(j div 2, k)))"""
    lemma = True
    def prove(self, u):
        import vcg.exec as X
        i, j, k, x = z3.Ints("li lj lk lx"); D = lambda a, b: anc(a, b) == z3.And(b >= 1, z3.Or(b == a, z3.And(a >= 2, anc(a/2, b)))); out = []
        rng = lambda a, b: z3.Implies(anc(a, b), z3.And(1 <= b, b <= a)); tra = lambda a, b, c: z3.Implies(z3.And(anc(a, b), anc(b, c)), anc(a, c)); lin = lambda a, b, c: z3.Implies(z3.And(anc(a, b), anc(a, c), c <= b), anc(b, c))
        down = lambda a, b: z3.Implies(z3.And(anc(a, b), a != b), z3.Or(anc(a, 2*b), anc(a, 2*b+1)))
        h = z3.Implies
        for nm, hyp, g in [("range", [D(j, k), h(j >= 2, rng(j/2, k))], rng(j, k)),
                ("transitive", [D(i, j), D(i, k), D(j, k), h(i >= 2, tra(i/2, j, k)), rng(i, j), rng(j, k)], tra(i, j, k)),
                ("a branch is a line", [D(i, j), D(i, k), D(j, k), h(i >= 2, lin(i/2, j, k)), rng(i, j), rng(i, k), h(i >= 2, z3.And(rng(i/2, k), rng(i/2, j)))], lin(i, j, k)),
                ("a child on the branch", [D(j, k), D(j, 2*k), D(j, 2*k+1), h(j >= 2, z3.And(down(j/2, k), rng(j/2, k))), D(j/2, k)], down(j, k)),
                ("the parent is on the branch", [D(j, k)], z3.Implies(z3.And(anc(j, k), j != k), anc(j/2, k))),
                ("self", [D(j, j)], h(j >= 1, anc(j, j))), ("parent", [D(j, j/2), D(j/2, j/2)], h(j >= 2, anc(j, j/2))), ("children", [D(2*j, j), D(2*j+1, j), D(j, j)], h(j >= 1, z3.And(anc(2*j, j), anc(2*j+1, j)))), ("root", [D(j, 1), h(j >= 2, anc(j/2, 1)), D(1, 1)], h(j >= 1, anc(j, 1)))]:
            r = X.prove(hyp, g, 20); out.append(X.Obl("ancestors, " + nm, r[0] == "ok", r[1] if r[0] == "ok" else r[0], 0, str(r)))
        return out
class TV:
    def __init__(self, ex, st, q):
        self.t = t = evalfn(ex, st, "spec_tree", [q]); P = lambda f, k: ex.read(st, k, evalfn(ex, st, f, [t]))
        self.A, self.K, self.n, self.cap = P("specp_array", "ptr"), P("specp_keep", "ptr"), lift(P("specp_last", "i64")), lift(P("specp_cap", "i64"))
        self.pv = evalfn(ex, st, "spec_players", [q]); self.b, m, c = VecLib.fields(ex, st, self.pv); self.m, self.pc = lift(m), lift(c)
        self.row = ex.row(st, "ptr", self.A.r, 0); self.E = ex.row(st, "i64", self.b.r, 0); self.Lf = ex.row(st, "i64", self.b.r, 8)
    def TP(self, k): return self.row[lift(k) - 1]
    def TR(self, k): return pi_(self.TP(k))
    def e(self, k): return rank(self.E[self.TR(k)])
    def L(self, p): return self.Lf[p]
def one(mk, f): p = z3.Int("wp"); return z3.ForAll([p], f(p), patterns=[mk(p)])
def all2(f, *ps):
    """for all j, k; with a pattern"""
    j, k = z3.Ints("pj pk"); return z3.ForAll([j, k], f(j, k), patterns=[(z3.MultiPattern(*p(j, k)) if isinstance(p(j, k), tuple) else p(j, k)) for p in ps])
class TC(Contract):
    nonempty = True
    def storage(self, ex, st, V, low=1):
        return [("the tree's array pointer is one before its storage", And(eqt(V.A.i, -1), eqt(V.A.o, 0), eqt(V.K.r, V.A.r), eqt(V.K.o, 0), eqt(V.K.i, 0))), ("sizes fit", z3.And(0 <= V.n, V.n <= V.cap, 0 <= V.m, V.m <= V.pc)),
            ("the tree's storage", z3.And(z3.Implies(V.cap > 0, z3.And(0 < lift(V.A.r), lift(V.A.r) < lift(st.next), nbytes(lift(V.A.r)) >= 8*V.cap)), z3.Implies(V.cap == 0, lift(V.A.r) == 0))),
            ("the players' storage", And(z3.Implies(V.pc > 0, z3.And(0 < lift(V.b.r), lift(V.b.r) < lift(st.next))), z3.Implies(V.pc == 0, lift(V.b.r) == 0), eqt(V.b.o, 0), eqt(V.b.i, 0))),
            ("room for the players of a full tree", z3.Or(V.cap == 0, z3.And(2 <= V.cap, V.cap + 1 <= 2*V.pc))),
            ("objects are apart", z3.And(*[lift(V.A.r) != lift(self.q.r), lift(V.b.r) != lift(self.q.r)], z3.Or(lift(V.A.r) != lift(V.b.r), lift(V.A.r) == 0))), ("one match fewer than players", z3.Or(z3.And(V.n == 0, V.m == 0), z3.And(V.m > 0, V.n == 2*V.m - 1)))]
    def matches(self, ex, st, V, skip=None, n=None, m=None, mk=0, order=None):
        """skip(k): the match at k may be out of date"""
        n = V.n if n is None else n; m = V.m if m is None else m; sk = skip or (lambda k: z3.BoolVal(False)); TR, e, L = V.TR, V.e, V.L
        inn = lambda k: z3.And(1 <= k, k <= n)
        M1, M2, M3, M4 = MARKS[mk]
        return [("nodes refer to players", one(M1, lambda k: z3.Implies(inn(k), z3.And(pr_(V.TP(k)) == lift(V.b.r), po_(V.TP(k)) == 0, 0 <= TR(k), TR(k) < m)))),
            ("a match is won by one of its two", one(M1, lambda k: z3.Implies(z3.And(1 <= k, 2*k <= n, z3.Not(sk(k))), z3.Or(TR(k) == TR(2*k), TR(k) == TR(2*k+1))))),
            ("winners are at least all they have beaten", all2(lambda j, k: z3.Implies(z3.And(anc(j, k), 1 <= j, j <= n, z3.Not(sk(k)), *([z3.Not(order(k))] if order else [])), e(j) <= e(k)), lambda j, k: (anc(j, k), M4(k)))),
            ("leaves and players agree", one(M1, lambda k: z3.Implies(z3.And(inn(k), 2*k > n), z3.And(L(TR(k)) == k, odd(k) == 2*TR(k) + 1)))),
            ("every player has a leaf", one(M3, lambda p: z3.Implies(z3.And(0 <= p, p < m), z3.And(inn(L(p)), 2*L(p) > n, TR(L(p)) == p)))),
            ("a winner comes from below", one(M1, lambda k: z3.Implies(z3.And(inn(k), z3.Not(sk(k))), anc(L(TR(k)), k)))),
            ("a winner has won all the way", self.alltheway(V, n, sk, mk))]
    def alltheway(self, V, n, sk, mk=0, or_=lambda k, j: z3.BoolVal(False)):
        M2 = MARKS[mk][1]; j, k = z3.Ints("wj wk"); return z3.ForAll([k], z3.ForAll([j], z3.Implies(z3.And(1 <= k, k <= n, z3.Not(sk(k)), anc(V.L(V.TR(k)), j), j >= k), z3.Or(V.TR(j) == V.TR(k), or_(k, j))), patterns=[M2(j)]), patterns=[M2(k)])
    def wf(self, ex, st, **kw): V = TV(ex, st, self.q); return self.storage(ex, st, V) + self.matches(ex, st, V, **kw)
    def pre(self, ex, st, args):
        q = self.q = args[0]; t = evalfn(ex, st, "spec_tree", [q]); n, cap, ar, p, m, pc = z3.Ints("q_n q_cap q_root p_root p_n p_cap"); P = lambda f: evalfn(ex, st, f, [t]); pv = evalfn(ex, st, "spec_players", [q])
        ex.write(st, "i64", P("specp_last"), n); ex.write(st, "i64", P("specp_cap"), cap); ex.write(st, "ptr", P("specp_array"), PtrV(ar, 0, -1)); ex.write(st, "ptr", P("specp_keep"), PtrV(ar, 0, 0))
        ex.write(st, "ptr", pv, PtrV(p, 0, 0)); ex.write(st, "i64", pv.at(8), m); ex.write(st, "i64", pv.at(16), pc)
        out = [cap <= MAXN, pc <= MAXN] + axioms() + [f for _, f in self.wf(ex, st, order=self.topfree(ex, st))]
        for a in args[1:]:
            if isinstance(a, PtrV): out += [lift(a.r) != x for x in (ar, p, lift(q.r))]
        if self.nonempty: out.append(n > 0)
        V = TV(ex, st, q); self.V0 = V; self.sum0 = lift(total(V.E, 0, V.m)); return out + [total_zero(V.E, 0)] + self.pre2(ex, st, args)
    def topfree(self, ex, st): return None
    def pre2(self, ex, st, args): return []
    def bounds(self, ex, st, kind, p, what):
        if is_c(p.r) or any(isinstance(a, PtrV) and z3.is_expr(a.r) and lift(p.r).eq(lift(a.r)) for a in [self.q] + list(ex.args) if not (isinstance(self, Range) and a is not self.q)): return []
        V = TV(ex, st, self.q)
        if isinstance(self, Range) and ex.valid(eqt(p.r, self.base.r)): return [("range access inside the range", And(eqt(p.o, 0), le(0, p.i), lt(p.i, self.ln), what == "read"))]
        if kind == "ptr": return [("node access inside the tree's storage", And(eqt(p.r, V.A.r), eqt(p.o, 0), le(0, p.i), lt(p.i, V.cap)))]
        return [("player access inside the players' storage", And(eqt(p.r, V.b.r), Or(eqt(p.o, 0), eqt(p.o, 8)), le(0, p.i), lt(p.i, V.pc)))]
    def wfptr(self, ex, st, p):
        if z3.is_app(p.r) and p.r.decl().eq(pr_) and z3.is_select(p.r.arg(0)): 
            k = z3.simplify(p.r.arg(0).arg(1) + 1); ex.assume(st, MARKS[0][0](k)); ex.assume(st, MARKS[1][0](k)); self.known(ex, st, p)
        return False
    def on_write(self, ex, st, kind, p, v):
        """name the changed row"""
        if not hasattr(self, "V0") or kind not in ("i64", "ptr"): return
        V = TV(ex, st, self.q)
        for r, o in (((V.b.r, 0), (V.b.r, 8)) if kind == "i64" else ((V.A.r, 0),)):
            if blk_cmp(p.r, p.o, r, o) != "eq": continue
            row = ex.row(st, kind, r, o)
            if z3.is_const(row): continue
            nr = fresh("row", row.sort()); ex.assume(st, nr == row); lo = [0]
            if kind == "i64" and o == 0:
                for hi in (V.m, V.m - 1, V.m + 1): ex.assume(st, total(nr, 0, hi) == total(row, 0, hi))
            ex.setrow(st, kind, r, o, nr)
    def known(self, ex, st, p):
        if getattr(self, "busy", False) or not hasattr(self, "V0"): return
        self.busy = True
        for P in self.players(ex, st):
            f = z3.And(p.r == P, p.o == 0)
            if ex.valid(f): break
            if ex.hprove(st, f): ex.assume(st, f); ex.assume(st, p.r == P); ex.assume(st, p.o == 0); break
        self.busy = False
    def players(self, ex, st): return [self.proot(ex, st)]
    def roots(self, ex, st): return [z3.Int("p_root")]
    def proot(self, ex, st): return evalfn(ex, st, "spec_players", [self.q]) and ex.read(st, "ptr", evalfn(ex, st, "spec_players", [self.q])).r
    def anchors(self, ex, st): return []
    def pos(self, L, st): return {nm: lift(v) for nm, v in phis_of(L, st, "i64").items()}
    def indices(self, ex, st):
        out = []
        for nm in sorted(self.idxnames(ex)):
            for v in (st.env.get(nm), *[Lx.hdr.get(nm) for Lx in getattr(self, "curLs", [])]):
                if v is not None and not isinstance(v, (bool, PtrV, list)) and z3.is_int(lift(v)) and not z3.is_int_value(lift(v)) and not any(lift(v).eq(o) for o in out): out.append(lift(v))
        return out
    def idxnames(self, ex):
        if not hasattr(self, "_pn"): self._pn = {i.res for b in ex.f.order for i in ex.f.blocks[b] if i.op == "phi" and repr(i.ty) == "i64"}
        return self._pn
    def extra_facts(self, ex, st, g, sk):
        V = TV(ex, st, self.q); V0 = getattr(self, "V0", V); out = []; xs = [s for s in sk if z3.is_int(s)]; ix = self.indices(ex, st); an = self.anchors(ex, st)
        I1 = z3.IntVal(1); near = ix + an
        for t in rows_in([g] + st.facts[-60:]):
            row, lo, hi = t.arg(0), t.arg(1), t.arg(2); out += [total_zero(row, lo), total_step(row, lo, hi), total_step(row, lo, hi-1)]
        U = lambda ts: list({z3.simplify(x).get_id(): z3.simplify(x) for x in ts}.values())
        nodes = U(xs + near + [I1, V.n] + [y for x in near for y in (x/2, sib(x))] + [y for x in xs for y in (2*x, 2*x+1)] + ([V.L(x) for x in xs] if len(xs) == 1 else []) + [V.L(V.TR(I1))])
        players = U(xs + [V.TR(I1)] + [V.TR(x) for x in near])
        for x in U(xs + near + [I1]): out += [z3.Implies(x >= 1, z3.And(anc(x, x), anc(x, 1))), z3.Implies(x >= 2, anc(x, x/2)), odd(x) == z3.If(x % 2 == 1, x, odd(x/2))]
        for a in near: out += [pair(sib(a), a), pair(a, sib(a)), z3.Implies(a >= 2, anc(sib(a), a/2))]
        for a in xs + near:
            for b in xs: out.append(pair(a, b))
        
        for M1, M2, M3, M4 in [m for k, m in enumerate(MARKS) if k in self.phase(ex, st)]: out += [M1(x) for x in nodes] + [M3(x) for x in players] + [M2(x) for x in U(xs + near + [x/2 for x in near] + [sib(x) for x in near] + [I1])] + [M4(x) for x in nodes]
        return out + self.more(ex, st, g, sk)
    def phase(self, ex, st): return (0,)
    def more(self, ex, st, g, sk): return []
class Top(TC):
    def post(self, ex, old, st, args, ret):
        V = TV(ex, st, self.q); p = z3.Int("any_player")
        for f in [MARKS[0][k](x) for k in (0, 3) for x in (p, V.L(p), z3.IntVal(1))] + [MARKS[0][2](p)] + ground(V.L(p)) + [anc(V.L(p), 1) == anc(V.L(p), 1)]: ex.assume(st, f)
        return [("nothing changes", And(ex.memterm(st, "i64") == ex.memterm(old, "i64"), ex.memterm(st, "ptr") == ex.memterm(old, "ptr"))), ("the top is an entry", lift(ret) == V.E[V.TR(1)]), ("no entry is greater", z3.Implies(z3.And(0 <= p, p < V.m), rank(V.E[p]) <= rank(lift(ret))))]
class Dec(TC):
    """decreaseTop and the last part of pop: the matches from a leaf up to the root are played again"""
    mk = 0
    def topfree(self, ex, st): V = TV(ex, st, self.q); return lambda k: V.TR(k) == V.TR(1)        # the entry on top may have become smaller in place
    def invs(self, ex, L, st):
        self.curLs = L.outer + [L]
        V, VE = TV(ex, st, self.q), TV(ex, L.entry, self.q); out = [("storage: " + n, f) for n, f in self.storage(ex, st, V)]
        out += [("tree storage stays", And(peq(V.A, VE.A), eqt(V.n, VE.n), eqt(V.cap, VE.cap), peq(V.b, VE.b), eqt(V.m, VE.m), eqt(V.pc, VE.pc))), ("players stay", And(V.E == VE.E, V.Lf == VE.Lf))]
        for x, p in self.pos(L, st).items():
            up = lambda k, p=p: z3.And(anc(p, k), k != p)
            out.append((f"{x} is a node", z3.And(1 <= p, p <= V.n)))
            out += [(f"{x}: " + n, f) for n, f in self.matches(ex, st, V, up, mk=self.mk)]
            for y, w_ in phis_of(L, st, "ptr").items(): out.append((f"{y} has won up to {x}", V.TP(p) == w_.term()))
        return out
    def post(self, ex, old, st, args, ret):
        V = TV(ex, st, self.q); V0 = TV(ex, old, self.q); t0 = V0.E[V0.TR(1)]
        return self.wf(ex, st) + [("the top is replaced", lift(total(V.E, 0, V.m)) == lift(total(V0.E, 0, V0.m)) - w(t0) + w(lift(args[1]))), ("the number of entries stays", V.m == V0.m)]
class Pop(Dec):
    mk = 1; replay = (None, [])
    def phase(self, ex, st): return (1,) if st is not self.replay[0] and self.replay[1] and all(x in st.env for x in self.replay[1]) else (0, 1)
    def anchors(self, ex, st): n = self.V0.n; return [z3.simplify(x) for x in (n, n - 1, n/2)] if 0 in self.phase(ex, st) else []
    def invs(self, ex, L, st):
        V, V0 = TV(ex, st, self.q), self.V0
        if not ex.valid(V.n == V0.n): self.replay = (L.entry, [nm for nm, _ in L.phis]); return Dec.invs(self, ex, L, st)
        self.curLs = L.outer + [L]; VE = TV(ex, L.entry, self.q); n = V0.n; r, l = V0.TR(n), V0.TP(n - 1)
        out = [("storage: " + nm, f) for nm, f in self.storage(ex, st, V)] + [("tree storage stays", And(peq(V.A, VE.A), eqt(V.n, VE.n), eqt(V.cap, VE.cap), peq(V.b, VE.b), eqt(V.m, VE.m), eqt(V.pc, VE.pc))), ("players stay", And(V.E == VE.E, V.Lf == VE.Lf))]
        for x, p in self.pos(L, st).items():
            out += [(f"{x} is above the last leaf", z3.And(anc(n, p), p < n)), (f"matches below {x} are renamed", one(MARKS[0][0], lambda k: z3.Implies(z3.And(1 <= k, k <= n), V.TP(k) == z3.If(z3.And(V0.TR(k) == r, k < n, k > p), l, V0.TP(k)))))]
        return out
    def post(self, ex, old, st, args, ret):
        V = TV(ex, st, self.q); V0 = self.V0; t0 = V0.E[V0.TR(1)]; n = V0.n
        for x in (z3.IntVal(1), n, n - 1, n/2): ex.assume(st, MARKS[0][0](z3.simplify(x))); ex.assume(st, MARKS[0][1](z3.simplify(x))); ex.assume(st, odd(x) == z3.If(x % 2 == 1, x, odd(x/2)))
        for x in (z3.IntVal(1), n, n - 1): ex.assume(st, MARKS[0][2](V0.TR(x)))
        for f in (z3.Implies(z3.And(n % 2 == 1, n >= 3), z3.And(anc(n - 1, n/2), anc(n, n/2))), z3.Implies(n >= 1, anc(n/2, 1))): ex.assume(st, f)
        return self.wf(ex, st) + [("the old top is returned", lift(ret) == t0), ("exactly the top is removed", lift(total(V.E, 0, V.m)) == self.sum0 - w(t0)), ("one entry fewer", V.m == V0.m - 1)]
    def more(self, ex, st, g, sk):
        if 0 not in self.phase(ex, st): return []
        T, T2, T3, T4 = MARKS[0]; V0 = self.V0; n = V0.n; xs = [s for s in sk if z3.is_int(s)]; out = []
        rn = [V0.TR(n), V0.TR(n - 1), V0.TR(1)]; out += [z3.Implies(z3.And(n % 2 == 1, n >= 3), z3.And(anc(n - 1, n/2), anc(n, n/2)))]; out += [T3(V0.TR(x)) for x in xs]
        out += [T3(z3.simplify(x)) for x in rn + [V0.m - 1]] + [T(z3.simplify(V0.L(x))) for x in rn]
        for x in self.indices(ex, st): out += [pair(x, y) for y in xs] + [pair(n, x)]
        for x in xs: out += [pair(V0.L(V0.TR(x)), x), pair(n, x), pair(n - 1, x), pair(n/2, x), odd(x) == z3.If(x % 2 == 1, x, odd(x/2))]
        return out
class Push(TC):
    """one more player: the leaf h that loses its place moves down as left child, the new player is the leaf x; the
    new player has then won every match from x up to the current position and nothing else has changed"""
    nonempty = False; full = None
    def pre2(self, ex, st, args):
        V = self.V0; self.new = lift(args[1]); return [V.cap + 2 <= MAXN] + ([] if self.full is None else [(V.cap < V.n + 2) if self.full else (V.cap >= V.n + 2)])
    def anchors(self, ex, st): n = self.V0.n; return [z3.simplify(x) for x in (n, n + 1, n + 2, (n + 1)/2)]
    def invs(self, ex, L, st):
        self.curLs = L.outer + [L]; V, VE, V0 = TV(ex, st, self.q), TV(ex, L.entry, self.q), self.V0; n = V0.n; x_ = n + 2; new = self.new
        out = [("storage: " + nm, f) for nm, f in self.storage(ex, st, V)] + [("tree storage stays", And(peq(V.A, VE.A), eqt(V.n, VE.n), eqt(V.cap, VE.cap), peq(V.b, VE.b), eqt(V.m, VE.m), eqt(V.pc, VE.pc))), ("players stay", And(V.E == VE.E, V.Lf == VE.Lf))]
        me = PtrV(V.b.r, 0, V0.m).term()
        for x, p in self.pos(L, st).items():
            won = lambda k, p=p: z3.And(anc(x_, k), k >= p)
            out += [(f"{x} is above the new leaf", z3.And(anc(x_, p), 1 <= p)), (f"the new player has won up to {x}", one(MARKS[1][0], lambda k: z3.Implies(z3.And(1 <= k, k <= n + 2), V.TP(k) == z3.If(won(k), me, z3.If(k == n + 1, V0.TP((n + 1)/2), V0.TP(k)))))),
                (f"those beaten up to {x} are smaller", one(MARKS[1][0], lambda k: z3.Implies(z3.And(1 <= k, k <= n, won(k)), V0.e(k) < rank(new))))]
            for y, r in self.pos(L, st).items():
                if x != y: out += [(f"{y} is the parent of {x}", r == p/2)]
            out.append((f"{x} is not the root", p >= 2))
        return out
    def more(self, ex, st, g, sk):
        if not hasattr(self, "V0"): return []
        T, T2, T3, T4 = MARKS[0]; N = MARKS[1][0]; V0 = self.V0; n = V0.n; xs = [s for s in sk if z3.is_int(s)]; ix = self.indices(ex, st); out = []; h = (n + 1)/2
        for x in xs + ix + [n, n + 1, n + 2, h, z3.IntVal(1)]: out += [N(z3.simplify(x)), T(z3.simplify(x)), T4(z3.simplify(x)), T3(V0.TR(x))]
        for x in ix: out += [N(x/2), N(sib(x)), T(x/2), T4(x/2), T3(V0.TR(x/2)), pair(n + 2, x), z3.Implies(x >= 2, anc(x, x/2)), pair(n + 2, x/2)]
        for x in xs: out += [N(z3.simplify(y)) for y in (2*x, 2*x + 1, x/2)] + [T(x/2), T(2*x), T(2*x+1), T2(x/2), T2(x)] + [pair(n + 2, x), pair(n + 1, x), pair(n + 2, 2*x), pair(n + 2, 2*x + 1), pair(h, x), pair(V0.L(V0.TR(x)), x)] + [N(V0.L(V0.TR(x))), T3(x), N(V0.L(x)), T(V0.L(x))]
        for x in (n + 1, n + 2): out += [z3.Implies(n % 2 == 1, z3.And(anc(x, h), anc(x, x), anc(h, h), anc(x, 1), anc(h, 1), n + 1 == 2*h)), odd(x) == z3.If(x % 2 == 1, x, odd(x/2))]
        for x in ix: out += [T2(V0.TR(x))]
        return out
    def post(self, ex, old, st, args, ret):
        V, V0 = TV(ex, st, self.q), self.V0
        for f in [total_step(t.arg(0), t.arg(1), V0.m) for t in rows_in(st.facts[-80:])]: ex.assume(st, f)
        return self.wf(ex, st) + [("content grows by exactly the entry", lift(total(V.E, 0, V.m)) == self.sum0 + w(self.new)), ("one entry more", V.m == V0.m + 1), ("the top stays unless the entry is greater", z3.Or(V.TR(1) == V0.m, z3.And(V0.n >= 1, V.TR(1) == V0.TR(1))))]
class PushRoom(Push): full = False
class PushFull(Push): full = True
def h_realloc(ex, st, ins, args):
    """reallocate as seen by push; the contract is the one verified for it (class Realloc)"""
    C = ex.contract; V = TV(ex, st, C.q)
    gone = set()
    for nm, f in C.wf(ex, st):
        ex.oblige(st, "reallocate is called on a valid queue: " + nm, f); gone.add(lift(f).get_id())
    st.facts = [f for f in st.facts if f.get_id() not in gone or not z3.is_quantifier(f)]      # what was known of the old storage is no longer needed
    t = evalfn(ex, st, "spec_tree", [C.q]); P = lambda f: evalfn(ex, st, f, [t]); cap, pc = fresh("cap", IntS), fresh("pc", IntS); a, b = ex.alloc(st), ex.alloc(st)
    rn = fresh("players", IntS); ex.assume(st, [z3.Or(rn == lift(b.r), rn == lift(V.b.r)), rn != lift(C.q.r), rn != lift(a.r)])
    E, Lf = ex.havoc_row(st, "i64", b.r, 0), ex.havoc_row(st, "i64", b.r, 8); ex.havoc_row(st, "ptr", a.r, 0)
    for o in (0, 8): ex.havoc_row(st, "i64", rn, o)
    ex.write(st, "ptr", P("specp_array"), PtrV(a.r, 0, -1)); ex.write(st, "ptr", P("specp_keep"), PtrV(a.r, 0, 0)); ex.write(st, "i64", P("specp_cap"), cap); ex.write(st, "ptr", V.pv, PtrV(rn, 0, 0)); ex.write(st, "i64", V.pv.at(16), pc)
    C.V0 = W = TV(ex, st, C.q)
    for _, f in C.wf(ex, st): ex.assume(st, f)
    ex.assume(st, [cap >= V.n + 2, cap <= 2*V.cap + 16, W.n == V.n, W.m == V.m, total(W.E, 0, W.m) == C.sum0, pc < 2**60, total_zero(W.E, 0)])
class Realloc(TC):
    nonempty = False
    def pre2(self, ex, st, args): return [self.V0.cap <= MAXN/4]
    def players(self, ex, st): return [z3.Int("p_root"), self.proot(ex, st)]
    def roots(self, ex, st): return [z3.Int("p_root")] + ([self.proot(ex, st)] if hasattr(self, "V0") else [])
    def invs(self, ex, L, st):
        self.curLs = L.outer + [L]; V, VE, V0 = TV(ex, st, self.q), TV(ex, L.entry, self.q), self.V0; n = V0.n
        out = [("storage: " + nm, f) for nm, f in self.storage(ex, st, V)] + [("tree storage stays", And(peq(V.A, VE.A), eqt(V.n, VE.n), eqt(V.cap, VE.cap), peq(V.b, VE.b), eqt(V.m, VE.m), eqt(V.pc, VE.pc))), ("players stay", And(V.E == VE.E, V.Lf == VE.Lf))]
        for x, p in self.pos(L, st).items():
            out += [(f"{x} is a place", z3.And(1 <= p, p <= n + 1)), (f"pointers before {x} are moved", one(MARKS[1][0], lambda k: z3.Implies(z3.And(1 <= k, k <= n), V.TP(k) == z3.If(k < p, PtrV(V.b.r, 0, V0.TR(k)).term(), V0.TP(k)))))]
        return out
    def more(self, ex, st, g, sk):
        if not hasattr(self, "V0"): return []
        xs = [s for s in sk if z3.is_int(s)]; V0 = self.V0; near = [y for x in xs for y in (x, 2*x, 2*x+1, V0.L(x), V0.L(V0.TR(x)))] + self.indices(ex, st) + [z3.IntVal(1)]; out = []
        for y in near: out += [MARKS[1][0](y), MARKS[0][0](y), MARKS[0][2](V0.TR(y))]
        return out + [MARKS[0][1](x) for x in xs]
    def post(self, ex, old, st, args, ret):
        V, V0 = TV(ex, st, self.q), self.V0
        return self.wf(ex, st) + [("room for one more", V.cap >= V.n + 2), ("the capacity is at most doubled", V.cap <= 2*V0.cap + 16), ("as many entries", z3.And(V.m == V0.m, V.n == V0.n)), ("same content", lift(total(V.E, 0, V.m)) == self.sum0), ("the top is the same", z3.Implies(V0.n >= 1, z3.And(V.TR(1) == V0.TR(1), V.E[V.TR(1)] == V0.E[V0.TR(1)])))]
class RowV:
    def __init__(self, ex, st, t):
        P = lambda f, k: ex.read(st, k, evalfn(ex, st, f, [t])); self.A, self.K, self.n, self.cap = P("specp_array", "ptr"), P("specp_keep", "ptr"), lift(P("specp_last", "i64")), lift(P("specp_cap", "i64")); self.row = ex.row(st, "ptr", self.A.r, 0)
    def storage(self, st): return [("the tree's array pointer is one before its storage", And(eqt(self.A.i, -1), eqt(self.A.o, 0), eqt(self.K.r, self.A.r), eqt(self.K.o, 0), eqt(self.K.i, 0))), ("the size fits", z3.And(0 <= self.n, self.n <= self.cap)), ("storage", z3.And(z3.Implies(self.cap > 0, z3.And(0 < lift(self.A.r), lift(self.A.r) < lift(st.next), nbytes(lift(self.A.r)) >= 8*self.cap)), z3.Implies(self.cap == 0, lift(self.A.r) == 0)))]
class GrowT(Contract):
    """ComTree<Player*>::increaseCapacity"""
    def call(self, ex, st, ins, args):
        t = args[0]; V = RowV(ex, st, t); P = lambda f: evalfn(ex, st, f, [t])
        for nm, f in V.storage(st): ex.oblige(st, "the tree is grown when valid: " + nm, f)
        q = ex.alloc(st); cap = fresh("cap", IntS); row = ex.havoc_row(st, "ptr", q.r, 0)
        ex.write(st, "ptr", P("specp_array"), PtrV(q.r, 0, -1)); ex.write(st, "ptr", P("specp_keep"), PtrV(q.r, 0, 0)); ex.write(st, "i64", P("specp_cap"), cap)
        ex.assume(st, [f for _, f in self.effect(V, RowV(ex, st, t))] + [nbytes(lift(q.r)) >= 8*cap])
    def effect(self, V, W): return [("more room", z3.And(W.cap >= 2*V.cap, W.cap >= 2, W.cap <= 2*V.cap + 16)), ("as many entries", W.n == V.n), ("the same entries", one(MARKS[0][0], lambda k: z3.Implies(z3.And(1 <= k, k <= V.n), W.row[k - 1] == V.row[k - 1])))]
    def pre(self, ex, st, args):
        t = self.t = args[0]; n, cap, ar = z3.Ints("q_n q_cap q_root"); P = lambda f: evalfn(ex, st, f, [t])
        ex.write(st, "i64", P("specp_last"), n); ex.write(st, "i64", P("specp_cap"), cap); ex.write(st, "ptr", P("specp_array"), PtrV(ar, 0, -1)); ex.write(st, "ptr", P("specp_keep"), PtrV(ar, 0, 0))
        self.V0 = RowV(ex, st, t); return [f for _, f in self.V0.storage(st)] + [cap <= MAXN, lift(t.r) != ar]
    def locals(self, ex, st): return [(i.res, st.env[i.res]) for b in ex.f.order for i in ex.f.blocks[b] if i.op == "alloca" and i.ty.k == "named" and "ComTree" in i.ty.a and "Node" not in i.ty.a and i.res in st.env]
    def invs(self, ex, L, st):
        V = RowV(ex, st, self.t); V0 = self.V0; out = [("source untouched", And(peq(V.A, V0.A), peq(V.K, V0.K), V.n == V0.n, V.cap == V0.cap, V.row == V0.row))]
        for nm, p in self.locals(ex, st):
            W, WE = RowV(ex, st, p), RowV(ex, L.entry, p)
            out += [(f"{nm}: storage stays", And(peq(W.A, WE.A), peq(W.K, WE.K), W.cap == WE.cap))]
            for x, v in phis_of(L, st, "i64").items(): v = lift(v); out += [(f"{x} is a place", z3.And(1 <= v, v <= V0.n + 1)), (f"{nm} filled to {x}", W.n == v - 1), (f"{nm} copied to {x}", one(MARKS[0][0], lambda k: z3.Implies(z3.And(1 <= k, k < v), W.row[k - 1] == V0.row[k - 1])))]
        return out
    def post(self, ex, old, st, args, ret):
        V = RowV(ex, st, self.t); return [(n, f) for n, f in V.storage(st)] + [("fresh storage", lift(V.A.r) >= lift(old.next))] + self.effect(self.V0, V)
    def extra_facts(self, ex, st, g, sk): return [MARKS[0][0](s) for s in sk if z3.is_int(s)]
class Range(TC):
    """push(begin, end): begin and end delimit an array of entries outside the queue"""
    nonempty = False; range_arg = True
    def pre2(self, ex, st, args):
        self.b, self.e = args[1], args[2]; ln = self.ln = z3.Int("range_len"); base = PtrV(z3.Int("range_root"), 0, 0); 
        for k, v in ((1, base), (2, PtrV(base.r, 0, ln))): st.env[ex.f.params[k][1]] = v; args[k] = v
        self.src = ex.row(st, "i64", base.r, 0); self.base = base
        return [ln >= 0, ln <= MAXN, base.r > 0, base.r < lift(st.next), base.r != z3.Int("p_root"), base.r != z3.Int("q_root"), base.r != lift(self.q.r), total_zero(self.src, 0)]
    def invs(self, ex, L, st):
        self.curLs = L.outer + [L]; V, V0 = TV(ex, st, self.q), self.V0; out = [("storage: " + nm, f) for nm, f in self.storage(ex, st, V)] + self.matches(ex, st, V) + [("the range is left alone", ex.row(st, "i64", self.base.r, 0) == self.src), ("the range is apart", z3.And(self.base.r != lift(V.b.r), self.base.r != lift(V.A.r)))]
        for x, p in phis_of(L, st, "ptr").items(): out += [(f"{x} in the range", And(eqt(p.r, self.base.r), eqt(p.o, 0), le(0, p.i), le(p.i, self.ln))), (f"content up to {x}", lift(total(V.E, 0, V.m)) == self.sum0 + total(self.src, 0, p.i)), (f"size up to {x}", V.m == V0.m + lift(p.i))]
        return out
    def post(self, ex, old, st, args, ret):
        V = TV(ex, st, self.q); return self.wf(ex, st) + [("content grows by exactly the range", lift(total(V.E, 0, V.m)) == self.sum0 + total(self.src, 0, self.ln)), ("size grows by the length", V.m == self.V0.m + self.ln)]
    def known(self, ex, st, p): pass
def h_push(ex, st, ins, args):
    """push as seen by its callers; the contract is the one verified for push itself"""
    C = ex.contract; V = TV(ex, st, C.q); e = lift(args[1])
    for nm, f in C.wf(ex, st): ex.oblige(st, "push is called on a valid queue: " + nm, f)
    t = evalfn(ex, st, "spec_tree", [C.q]); P = lambda f: evalfn(ex, st, f, [t]); n, m, cap, pc = [fresh(x, IntS) for x in ("n", "m", "cap", "pc")]; a, b = ex.alloc(st), ex.alloc(st); ra, rb = fresh("tree", IntS), fresh("players", IntS)
    ex.assume(st, [z3.Or(ra == lift(a.r), ra == lift(V.A.r)), z3.Or(rb == lift(b.r), rb == lift(V.b.r)), ra > 0, rb > 0])
    s0 = lift(total(V.E, 0, V.m))
    for r in (ra, rb): ex.assume(st, z3.And(r != C.base.r, r != lift(C.q.r)))
    for r in (ra,): ex.havoc_row(st, "ptr", r, 0)
    for o in (0, 8): ex.havoc_row(st, "i64", rb, o)
    ex.write(st, "ptr", P("specp_array"), PtrV(ra, 0, -1)); ex.write(st, "ptr", P("specp_keep"), PtrV(ra, 0, 0)); ex.write(st, "i64", P("specp_cap"), cap); ex.write(st, "i64", P("specp_last"), n); ex.write(st, "ptr", V.pv, PtrV(rb, 0, 0)); ex.write(st, "i64", V.pv.at(8), m); ex.write(st, "i64", V.pv.at(16), pc)
    W = TV(ex, st, C.q)
    for _, f in C.wf(ex, st): ex.assume(st, f)
    ex.assume(st, [W.m == V.m + 1, lift(total(W.E, 0, W.m)) == s0 + w(e)])
class Empty(TC):
    nonempty = False
    def post(self, ex, old, st, args, ret): V = TV(ex, st, self.q); return self.wf(ex, st) + [("emptiness is reported", lift(ret) == (V.m == 0)), ("nothing changes", And(ex.memterm(st, "i64") == ex.memterm(old, "i64"), ex.memterm(st, "ptr") == ex.memterm(old, "ptr")))]
class Ctor(TC):
    def pre(self, ex, st, args): self.q = args[0]; self.sum0 = z3.IntVal(0); return [lift(args[0].r) != lift(args[1].r)]
    def post(self, ex, old, st, args, ret): return self.wf(ex, st) + [("empty", TV(ex, st, self.q).m == 0)]
    def extra_facts(self, ex, st, g, sk): return []
class Clear(TC):
    nonempty = False
    def post(self, ex, old, st, args, ret): return self.wf(ex, st) + [("nothing remains", TV(ex, st, self.q).m == 0)]
class ForAll(TC):
    nonempty = False
    def pre2(self, ex, st, args): ex.setghost(st, "sum", z3.IntVal(0)); ex.setghost(st, "stopped", z3.BoolVal(False)); return []
    def invs(self, ex, L, st):
        V, V0 = TV(ex, st, self.q), self.V0; out = [("nothing changes", And(ex.memterm(st, "i64") == ex.memterm(ex.pre, "i64"), ex.memterm(st, "ptr") == ex.memterm(ex.pre, "ptr"))), ("not stopped", z3.Not(st.ghost["stopped"]))]
        for x, p in phis_of(L, st, "ptr").items(): out += [(f"{x} among the players", And(eqt(p.r, V0.b.r), eqt(p.o, 0), le(0, p.i), le(p.i, V0.m))), (f"reported up to {x}", st.ghost["sum"] == lift(total(V0.E, 0, p.i)))]
        for x, p in self.pos(L, st).items(): out += [(f"{x} among the players", z3.And(0 <= p, p <= V0.m)), (f"reported up to {x}", st.ghost["sum"] == lift(total(V0.E, 0, p)))]
        return out
    def more(self, ex, st, g, sk): return [total_step(self.V0.E, 0, lift(p.i) - 1) for Lx in getattr(self, "curLs", []) for p in Lx.hdr.values() if isinstance(p, PtrV)] if hasattr(self, "V0") else []
    def post(self, ex, old, st, args, ret): return [("nothing changes", And(ex.memterm(st, "i64") == ex.memterm(old, "i64"), ex.memterm(st, "ptr") == ex.memterm(old, "ptr"))), ("unless stopped, exactly the entries are reported", z3.Or(st.ghost["stopped"], st.ghost["sum"] == self.sum0))]
def h_proceed(ex, st, ins, args):
    ex.oblige(st, "nothing is reported after the receiver asked to stop", z3.Not(st.ghost["stopped"]))
    ex.setghost(st, "sum", st.ghost["sum"] + w(lift(args[1]))); go = fresh("go", z3.BoolSort()); ex.setghost(st, "stopped", z3.Not(go)); return go
BASE = CONF_Q + NEWDEL + VecLib({"mathic::TourTree<Conf>::Player": [(0, "i64"), (8, "i64")]}).handlers() + [(r"Recv::proceed\(", h_proceed)]
def unit(): return Unit("tourtree.cpp", BASE)
RE, IC, PU = (r"TourTree<Conf>::reallocate\(", h_realloc), (r"ComTree<.*>::increaseCapacity\(", GrowT().call), (r"TourTree<Conf>::push\(long\)", h_push)
def unit2(): return Unit("tourtree.cpp", BASE + [RE, IC])
def unit3(): return Unit("tourtree.cpp", BASE + [RE, IC, PU])
def fn(s): return lambda u: next((n for n in u.module.fns if s in u.demangle(n) and u.module.fns[n].blocks), "no function " + s)
JOBS = [("tour", unit, "ancestor facts", Lemmas), ("tour", unit, "d_top", Top), ("tour", unit, "d_decreaseTop", Dec), ("tour", unit, "d_pop", Pop), ("tour", unit, "d_empty", Empty), ("tour", unit, "d_clear", Clear), ("tour", unit, "d_forAll", ForAll), ("tour", unit, "d_forAll_mutable", ForAll),
  ("tour2", unit2, "d_push", PushRoom, "d_push with room"), ("tour2", unit2, "d_push", PushFull, "d_push without room"), ("tour2", unit2, fn("::increaseCapacity("), GrowT, "increaseCapacity"), ("tour2", unit2, "d_ctor", Ctor), ("tour2", unit2, fn("::reallocate("), Realloc, "reallocate"), ("tour3", unit3, "d_push_range", Range)]
