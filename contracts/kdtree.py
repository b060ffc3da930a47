"""Contracts for the two k-d trees (D04, D05, D06).  Leaves are used by the contracts proved for KDEntryArray (kdleaf.py); what is proved here is that the walk over the tree reaches exactly what it has to."""
from .spec import *
from .vec import VecLib, J
from .mask import TOP, expo, dv, bitand
from . import divlist as D, kdleaf as KL
from .divlist import MK, SORT, VC, EQE, axioms, era
from .kdleaf import ADM, admits, maskaxioms, num
from vcg.unit import Unit
SUB, VIA = z3.Function("below", IntS, IntS, B), z3.Function("via", IntS, IntS, IntS)      # SUB(n, m): m is in the subtree of n; VIA(n, m): through which child of n
U, W = z3.Function("U", IntS, B), z3.Function("W", IntS, B); WJ, UK = z3.Function("WJ", IntS, IntS, B), z3.Function("UK", IntS, IntS, B); WI = z3.Function("WI", IntS, B)      # instantiation markers
pi_, pr_, po_ = PtrD.pi, PtrD.pr, PtrD.po
AB, AI = z3.ArraySort(IntS, B), z3.ArraySort(IntS, IntS)
MP = z3.MultiPattern
def all_(n, f, pats):
    vs = z3.Ints("kn km kj kk")[:n]; return z3.ForAll(vs, f(*vs), patterns=[MP(*ps) if len(ps) > 1 else ps[0] for ps in [pats(*vs)]])
class TV:
    """the nodes of the tree as stored in a state"""
    def __init__(self, ex, st):
        u = self.u = ex.u; self.m = {k: ex.memterm(st, k) for k in ("ptr", "i64", "i32", "i8")}
        if not hasattr(u, "off"):
            one = PtrV(1, 0, 0); o = lambda f: evalfn(ex, st, f, [one]).o
            u.off = {f: o("specp_" + f) for f in (("b", "end", "var", "exp", "le", "gt", "isleaf") if not u.packed else ("b", "end", "var", "exp", "node", "cbegin", "cend")) + (("mask",) if u.tmask else ())}
            u.entoff = o("specp_entries")
        self.o = u.off
    def at(self, kind, n, o, i=0): return z3.Select(z3.Select(self.m[kind], Blk.mkblk(n, lift(o))), lift(i))
    def end(self, m): return self.at("ptr", m, self.o["end"])
    def ne(self, m): return pi_(self.end(m))
    def ent(self, m, j): return self.at("i64", m, add(self.o["b"], self.u.eoff), j)
    # binary
    def leaf(self, n): return z3.BoolVal(True) if self.u.packed else self.at("i8", n, self.o["isleaf"]) % 2 == 1
    def le(self, n): return self.at("ptr", n, self.o["le"])
    def gt(self, n): return self.at("ptr", n, self.o["gt"])
    def kid(self, n, k):
        """packed: child k of n"""
        return self.at("ptr", n, self.co("node"), k)
    def nc(self, n): return pi_(self.at("ptr", n, self.o["cend"]))
    def co(self, f): return add(self.o["cbegin"], self.o[f])
    def var(self, n, k=0): return self.at("i64", n, self.o["var"] if not self.u.packed else self.co("var"), k)
    def exp(self, n, k=0): return num(self.at("i32", n, self.o["exp"] if not self.u.packed else self.co("exp"), k))
    def mask(self, n, k=0): return self.at("i32", n, self.o["mask"] if not self.u.packed else self.co("mask"), k)
    def fields(self, n):
        if self.u.packed: return [("ptr", self.o["cend"], None), ("ptr", self.co("node"), "row"), ("i64", self.co("var"), "row"), ("i32", self.co("exp"), "row")] + ([("i32", self.co("mask"), "row")] if self.u.tmask else [])
        return [("ptr", self.o["le"], None), ("ptr", self.o["gt"], None), ("i64", self.o["var"], None), ("i32", self.o["exp"], None), ("i8", self.o["isleaf"], None)] + ([("i32", self.o["mask"], None)] if self.u.tmask else [])
    def lfields(self): return [("ptr", self.o["end"]), ("i64", add(self.o["b"], self.u.eoff))] + ([("i32", self.o["b"])] if self.u.mask else [])
class KT(Contract):
    key = None; hasleafcalls = True; static = True
    # ---- the tree
    def IN(self, m): return z3.And(self.root != 0, SUB(self.root, m))
    def facts(self, ex, T, st):
        u = ex.u; IN = self.IN; root = self.root; nxt = lift(st.next); out = []
        out.append(all_(1, lambda n: z3.Implies(IN(n), z3.And(n > 0, n < nxt, *[n != lift(a.r) for a in ex.args if isinstance(a, PtrV)], n != z3.Int("t_root"), n != z3.Int("key_root"))), lambda n: (U(n),)))
        out.append(z3.Implies(root != 0, SUB(root, root)))
        out.append(all_(1, lambda n: z3.Implies(z3.And(IN(n), T.leaf(n)), z3.And(pr_(T.end(n)) == n, po_(T.end(n)) == lift(u.off["b"]), 0 <= T.ne(n), T.ne(n) <= u.leaf)), lambda n: (U(n),)))
        ok = lambda p: z3.And(po_(p) == 0, pi_(p) == 0, pr_(p) > 0, IN(pr_(p)))
        ADMe = lambda n, m, j, k=0: ADM(T.mask(n, k), MK(era(st), T.ent(m, j))) if u.tmask else z3.BoolVal(True)
        x = lambda n, m, j, k=0: num(expo(T.ent(m, j), T.var(n, k)))
        if not u.packed:
            l, g = (lambda n: pr_(T.le(n))), (lambda n: pr_(T.gt(n)))
            out.append(all_(1, lambda n: z3.Implies(z3.And(IN(n), z3.Not(T.leaf(n))), z3.And(ok(T.le(n)), ok(T.gt(n)), 0 <= T.var(n), T.var(n) < VC)), lambda n: (U(n),)))
            out.append(all_(2, lambda n, m: z3.Implies(IN(n), z3.And(SUB(n, m) == z3.Or(m == n, z3.And(z3.Not(T.leaf(n)), z3.Or(SUB(l(n), m), SUB(g(n), m)))), z3.Implies(SUB(n, m), IN(m)), z3.Implies(z3.Not(T.leaf(n)), z3.And(z3.Not(z3.And(SUB(l(n), m), SUB(g(n), m))), z3.Implies(z3.Or(SUB(l(n), m), SUB(g(n), m)), m != n))))), lambda n, m: (U(n), W(m))))
            out.append(all_(3, lambda n, m, j: z3.Implies(z3.And(IN(n), z3.Not(T.leaf(n)), T.leaf(m), 0 <= j, j < T.ne(m)), z3.And(z3.Implies(SUB(l(n), m), x(n, m, j) <= T.exp(n)), z3.Implies(SUB(g(n), m), x(n, m, j) > T.exp(n)), z3.Implies(SUB(n, m), ADMe(n, m, j)))), lambda n, m, j: (U(n), WJ(m, j))))
        else:
            C = lambda n, k: pr_(T.kid(n, k)); cend = lambda n: T.at("ptr", n, u.off["cend"]); late = lambda n, m, k: z3.And(SUB(n, m), z3.Or(m == n, VIA(n, m) >= k))
            out.append(all_(1, lambda n: z3.Implies(IN(n), z3.And(pr_(cend(n)) == n, po_(cend(n)) == lift(u.off["cbegin"]), 0 <= T.nc(n), T.nc(n) < 2**40)), lambda n: (U(n),)))
            out.append(all_(2, lambda n, k: z3.Implies(z3.And(IN(n), 0 <= k, k < T.nc(n)), z3.And(ok(T.kid(n, k)), 0 <= T.var(n, k), T.var(n, k) < VC)), lambda n, k: (UK(n, k),)))
            out.append(all_(2, lambda n, m: z3.Implies(IN(n), z3.And(SUB(n, m) == z3.Or(m == n, z3.And(0 <= VIA(n, m), VIA(n, m) < T.nc(n), SUB(C(n, VIA(n, m)), m))), z3.Implies(SUB(n, m), IN(m)))), lambda n, m: (U(n), W(m))))
            n, m, k, j = z3.Ints("kn km kk kj")
            out.append(z3.ForAll([n, k, m], z3.Implies(z3.And(IN(n), 0 <= k, k < T.nc(n), SUB(C(n, k), m)), z3.And(VIA(n, m) == k, m != n, SUB(n, m))), patterns=[MP(UK(n, k), W(m))]))
            out.append(z3.ForAll([n, k, m, j], z3.Implies(z3.And(IN(n), 0 <= k, k < T.nc(n), 0 <= j, j < T.ne(m)), z3.And(z3.Implies(SUB(C(n, k), m), x(n, m, j, k) > T.exp(n, k)), z3.Implies(z3.And(late(n, m, k), VIA(n, m) != k), x(n, m, j, k) <= T.exp(n, k)), z3.Implies(z3.And(late(n, m, k), m == n), x(n, m, j, k) <= T.exp(n, k)), z3.Implies(late(n, m, k), ADMe(n, m, j, k)))), patterns=[MP(UK(n, k), WJ(m, j))]))
        return out
    def divfacts(self):
        a, b, v = z3.Ints("fa fb fv"); return [z3.ForAll([a, b, v], z3.Implies(z3.And(dv(a, b), 0 <= v, v < VC), num(expo(a, v)) <= num(expo(b, v))), patterns=[MP(dv(a, b), expo(a, v), expo(b, v))])]
    keyarg = 1; plain = False      # plain: the argument is a monomial, not a monomial with its mask
    def pre(self, ex, st, args):
        t = self.t = args[0]; u = ex.u; self.kinds = {}; st.ghost["era"] = z3.Int("era0"); out = axioms() + maskaxioms() + self.divfacts()
        pr = evalfn(ex, st, "specp_root", [t]); self.root = z3.Int("tree_root"); ex.write(st, "ptr", pr, PtrV(self.root, 0, 0)); out += [self.root >= 0, self.root < st.next]
        tp = self.tp = evalfn(ex, st, "specp_tmp", [t]); tr, tc = z3.Ints("t_root t_cap"); ex.write(st, "ptr", tp, PtrV(tr, 0, 0)); ex.write(st, "i64", tp.at(8), 0); ex.write(st, "i64", tp.at(16), tc)
        out += [tc >= 0, tc < 2**40, tr >= 0, tr < st.next, VC > 0, VC < 2**32, z3.Implies(tc > 0, tr > 0), z3.Int("key_root") != tr, z3.Int("key_root") < st.next] + [x != lift(a.r) for a in args if isinstance(a, PtrV) for x in ((tr, z3.Int("key_root")) if not self.plain else (tr,))] + [lift(t.r) != lift(a.r) for a in args[1:] if isinstance(a, PtrV)]
        if self.keyarg is not None:
            p = args[self.keyarg]
        if self.keyarg is not None and self.plain: self.key = lift(ex.read(st, "i64", p)); out.append(z3.Int("key_root") == lift(p.r))
        elif self.keyarg is not None:
            q = PtrV(z3.Int("key_root"), 0, 0); ex.write(st, "ptr", p.at(8 if u.mask else 0), q); out += [q.r > 0, q.r < st.next, q.r != tr]
            self.key, m = KL.mono(ex, st, p)
            if u.mask: out.append(m == MK(era(st), self.key))
        st.ghost["VIS"] = z3.K(IntS, z3.BoolVal(False)); st.ghost["IDX"] = z3.Const("g_IDX", AI); st.ghost["stopped"] = z3.BoolVal(False); st.ghost["count"] = z3.IntVal(0); st.ghost["freed"] = z3.IntVal(0)
        self.T0 = TV(ex, st); out += self.facts(ex, self.T0, st)
        return out + self.pre2(ex, st, args)
    def pre2(self, ex, st, args): return []
    def match(self, e): return z3.BoolVal(True)
    def tmp(self, ex, st):
        b, n, c = VecLib.fields(ex, st, self.tp); return b, lift(n), lift(c)
    def hit(self, T, m, j): return z3.And(self.IN(m), T.leaf(m), 0 <= j, j < T.ne(m), self.match(T.ent(m, j)))
    def stk(self, ex, st):
        b, n, c = self.tmp(ex, st); row = ex.row(st, "ptr", b.r, 0); I = st.ghost["IDX"]; return (lambda i: row[i]), n, I
    # ---- markers
    def nodes(self, ex, st):
        out = [self.root]
        for nm, p in list(st.env.items()) + [x for L in getattr(self, "curLs", []) for x in L.hdr.items()]:
            if isinstance(p, PtrV) and nm in self.ppn(ex): out.append(p)
        return out
    def ppn(self, ex):
        if not hasattr(self, "_pp"): self._pp = {i.res for b in ex.f.order for i in ex.f.blocks[b] if i.op == "phi" and repr(i.ty) == "ptr"}
        return self._pp
    def extra_facts(self, ex, st, g, sk):
        if not hasattr(self, "T0"): return []
        xs = [s for s in sk if z3.is_int(s)]; ns, ks = [], []
        for p in self.nodes(ex, st) + getattr(self, "pushed", []) + self.extra_nodes(ex, st):
            r = lift(p.r) if isinstance(p, PtrV) else p; ns.append(r)
            if ex.u.packed and isinstance(p, PtrV): ks += [(r, lift(p.i)), (r, lift(p.i) - 1)]
        b, n, c = self.tmp(ex, st); row = ex.row(st, "ptr", b.r, 0); I = st.ghost["IDX"]; uniq = lambda l: list({z3.simplify(x).get_id(): z3.simplify(x) for x in l}.values())
        out = []; ns = uniq(ns + xs + [pr_(row[n]), pr_(row[n - 1])] ); 
        out += [U(x) for x in ns] + [W(x) for x in uniq(ns + xs)] + [WI(x) for x in uniq(xs + [n, n - 1] + [I[x] for x in xs])] + [UK(a, z3.simplify(k)) for a, k in ks]
        if ex.u.packed: out += [UK(a, VIA(a, x)) for a in ns for x in xs] 
        out += [WJ(x, y) for x in xs for y in xs] + [WJ(a, y) for a in ns for y in xs]
        return out + self.more(ex, st, g, sk)
    def extra_nodes(self, ex, st): return []
    def more(self, ex, st, g, sk): return []
    def bounds(self, ex, st, kind, p, what): return []
    def on_write(self, ex, st, kind, p, v):
        if not hasattr(self, "T0") or getattr(self, "quiet", False) or is_c(p.r) and p.r < 0: return
        self.mywrite(ex, st, kind, p, v)
    def mywrite(self, ex, st, kind, p, v):
        ok = z3.Or(lift(p.r) == lift(self.t.r), lift(p.r) >= lift(ex.pre.next) if getattr(ex, "pre", None) is not None else z3.BoolVal(False)); ex.oblige(st, "a search writes to no node", ok)
    # ---- the walk
    def curs(self, ex, L, st):
        """what the walk still has to do at the current place, for every pointer of the loop: (name, place is valid, part(m))"""
        out = []; u = ex.u; T = self.T0
        for nm, p in phis_of(L, st, "ptr").items():
            p0 = phis_of(L, L.entry, "ptr").get(nm); r = lift(p.r)
            if p0 is None or not isinstance(p, PtrV): continue
            kd = "node" if not u.packed else self.kinds.get((L.entry, nm)) or ("node" if ex.valid(eqt(p0.o, 0)) else "child" if ex.valid(eqt(p0.o, u.off["cbegin"])) else None)
            if kd: self.kinds[(L.entry, nm)] = kd
            if kd == "node": out.append((nm, And(eqt(p.o, 0), eqt(p.i, 0), self.IN(r)), lambda m, r=r: SUB(r, m), r))
            elif kd == "child":
                v = And(eqt(p.o, u.off["cbegin"]), le(0, p.i), p.i <= T.nc(r), self.IN(r)); k = lift(p.i)
                out.append((nm, v, lambda m, r=r, k=k: z3.And(SUB(r, m), z3.Or(m == r, VIA(r, m) >= k)), r)); out.append((nm + " and later", v, lambda m, r=r, k=k: z3.And(SUB(r, m), m != r, VIA(r, m) >= k), r))
        return out
    def same(self, ex, st, T0=None):
        """the nodes are as they were"""
        T, T0 = TV(ex, st), T0 or self.T0; fl = [(k, o) for k, o, _ in T.fields(0)] + (T.lfields() if self.static else []); out = []
        for k in ("ptr", "i64", "i32", "i8"):
            fs = [o for kk, o in fl if kk == k]
            if fs: out.append((f"{k} fields of nodes unchanged", z3.BoolVal(True) if T.m[k].eq(T0.m[k]) else all_(1, lambda n: z3.Implies(self.IN(n), z3.And(*[z3.Select(T.m[k], Blk.mkblk(n, lift(o))) == z3.Select(T0.m[k], Blk.mkblk(n, lift(o))) for o in fs])), lambda n: (U(n),))))
        return out
    def base(self, ex, st):
        b, n, c = self.tmp(ex, st); S, n, I = self.stk(ex, st); V = st.ghost["VIS"]
        return [("the stack of nodes", And(eqt(b.o, 0), eqt(b.i, 0), 0 <= n, n <= c, c < 2**56)), ("the stack is apart from the tree", z3.And(lift(b.r) != lift(self.t.r), lift(b.r) < lift(st.next), z3.Implies(c > 0, lift(b.r) > 0), *[lift(b.r) != lift(a.r) for a in ex.args if isinstance(a, PtrV)], lift(b.r) != z3.Int("key_root"), all_(1, lambda m: z3.Implies(self.IN(m), m != lift(b.r)), lambda m: (U(m),)))),
            ("nodes on the stack are in the tree", all_(1, lambda i: z3.Implies(z3.And(0 <= i, i < n), z3.And(po_(S(i)) == 0, pi_(S(i)) == 0, pr_(S(i)) > 0, self.IN(pr_(S(i))))), lambda i: (WI(i),))),
            ("only nodes of the tree are done", all_(1, lambda m: z3.Implies(V[m], z3.And(self.IN(m), self.T0.leaf(m))), lambda m: (W(m),)))] + self.same(ex, st)
    def cover(self, ex, st, part):
        S, n, I = self.stk(ex, st); V = st.ghost["VIS"]; T = self.T0
        return all_(2, lambda m, j: z3.Implies(z3.And(self.hit(T, m, j), z3.Not(V[m])), z3.Or(part(m), z3.And(0 <= I[m], I[m] < n, SUB(pr_(S(I[m])), m)))), lambda m, j: (WJ(m, j),))
    def apart(self, ex, st, part):
        S, n, I = self.stk(ex, st); V = st.ghost["VIS"]
        return [("the stack is apart from the rest", all_(2, lambda i, m: z3.Implies(z3.And(0 <= i, i < n, SUB(pr_(S(i)), m)), z3.And(I[m] == i, z3.Not(V[m]), z3.Not(part(m)))), lambda i, m: (WI(i), W(m)))), ("what is ahead is not done", all_(1, lambda m: z3.Implies(part(m), z3.Not(V[m])), lambda m: (W(m),)))]
    def invs(self, ex, L, st):
        self.curLs = L.outer + [L]; out = self.base(ex, st) + [("not stopped", z3.Not(st.ghost["stopped"])), ("the root stays", peq(ex.read(st, "ptr", evalfn(ex, st, "specp_root", [self.t])), ex.read(self.P0, "ptr", evalfn(ex, st, "specp_root", [self.t])))) if hasattr(self, "P0") else ("", z3.BoolVal(True))]
        cs = self.curs(ex, L, st)
        if self.keyarg is not None: out += self.keysame(ex, st)
        for nm, v, part, r in cs:
            out += [(f"{nm} is a place in the tree", v), (f"every match not done is ahead of {nm} or on the stack", self.cover(ex, st, part))] + [(f"{n} ({nm})", f) for n, f in self.apart(ex, st, part)] + [(f"{nm} is an inner node or leaf", z3.BoolVal(True))]
            for n2, v2, p2, r2 in cs:
                if n2 < nm and " and " not in n2 + nm: out.append((f"{nm} and {n2} at the same node", r == r2))
        if ex.u.packed:
            for nm, p in phis_of(L, L.entry, "ptr").items():
                if isinstance(p, PtrV) and isinstance(phis_of(L, st, "ptr").get(nm), PtrV): out.append((f"{nm} stays at its node", eqt(phis_of(L, st, "ptr")[nm].r, p.r)))
        for O in L.outer:
            for x, p in O.hdr.items():
                if isinstance(p, PtrV) and x in self.ppn(ex):
                    for nm, v, part, r in cs:
                        if " and " not in nm: out.append((f"{nm} is at the node of {x}", r == lift(p.r)))
        if not phis_of(L, st, "ptr"): none = lambda m: z3.BoolVal(False); out += [("every match not done is on the stack", self.cover(ex, st, none))] + self.apart(ex, st, none)
        for x, v in phis_of(L, st, "i64").items(): out.append((f"{x} counts what the leaves report", lift(v) == st.ghost["count"]))
        return out + self.moreinvs(ex, L, st)
    def keysame(self, ex, st):
        a = ex.args[self.keyarg]
        if self.plain: return [("the value asked for is left alone", lift(ex.read(st, "i64", a)) == self.key)]
        p = ex.read(st, "ptr", a.at(8 if ex.u.mask else 0)); k, m = KL.mono(ex, st, a)
        return [("the monomial asked for is left alone", And(eqt(p.r, z3.Int("key_root")), eqt(p.o, 0), eqt(p.i, 0)))] + [("the value asked for is left alone", lift(ex.read(st, "i64", PtrV(z3.Int("key_root"), 0, 0))) == self.key)] + ([("its mask is left alone", lift(m) == MK(era(st), self.key))] if ex.u.mask else [])
    def moreinvs(self, ex, L, st): return []
    def done(self, ex, st):
        """nothing that matches has been missed"""
        V = st.ghost["VIS"]; b, n, c = self.tmp(ex, st)
        return [("every node with a match was done unless stopped", all_(2, lambda m, j: z3.Implies(z3.And(z3.Not(st.ghost["stopped"]), self.hit(self.T0, m, j)), V[m]), lambda m, j: (WJ(m, j),))), ("the stack is left empty", n == 0)] + self.same(ex, st)
def leafof(ex, st, p):
    o = ex.u.entoff; ex.oblige(st, "the entries of a node are meant", And(eqt(p.o, o), eqt(p.i, 0))); return lift(p.r)
def visit(ex, st, m, key):
    """a node's entries are handed to a method of KDEntryArray, whose preconditions hold for every node that holds entries and has not been touched"""
    C = ex.contract; V = st.ghost["VIS"]; ex.oblige(st, "the node is in the tree and holds entries", z3.And(C.IN(m), C.T0.leaf(m))); ex.oblige(st, "no node is searched twice", z3.Not(V[m])); ex.oblige(st, "nothing is searched after the receiver stopped", z3.Not(st.ghost["stopped"]))
    for nm, f in C.same(ex, st): ex.oblige(st, "the node is as it was: " + nm, f)
    if key is not None: ex.oblige(st, "the monomial asked for is passed on", key == C.key)
    n = z3.Const(fresh("VIS", IntS).decl().name(), AB); ex.assume(st, n == z3.Store(V, m, z3.BoolVal(True))); ex.setghost(st, "VIS", n)
def keyof(ex, st, p):
    k, m = KL.mono(ex, st, p)
    if ex.u.mask: ex.oblige(st, "the mask passed on is that of the monomial", lift(m) == MK(era(st), k))
    return k
def l_find(ex, st, ins, args):
    C = ex.contract; T = C.T0; m = leafof(ex, st, args[0]); visit(ex, st, m, keyof(ex, st, args[1])); k = fresh("found", IntS)
    C.found = (m, k); j = z3.Int("kj"); ex.assume(st, [0 <= k, k <= T.ne(m), z3.Implies(k < T.ne(m), C.match(T.ent(m, k))), z3.Implies(k == T.ne(m), all_(2, lambda x, j: z3.Implies(z3.And(x == m, 0 <= j, j < T.ne(m)), z3.Not(C.match(T.ent(m, j)))), lambda x, j: (WJ(x, j),)))])
    return PtrV(args[0].r, add(ex.u.off["b"], 0), k)
def l_all(ex, st, ins, args):
    C = ex.contract; m = leafof(ex, st, args[0]); visit(ex, st, m, keyof(ex, st, args[1]) if C.keyarg is not None else None); r = fresh("goon", B); ex.setghost(st, "stopped", z3.Not(r)); return r
def v_push(ex, st, ins, args):
    C = ex.contract; p = args[0]; ex.oblige(st, "the tree's own stack is used", peq(p, C.tp)); v = ex.read(st, "ptr", args[1]); b, n, c = VecLib.fields(ex, st, p); x = lift(v.r); I = st.ghost["IDX"]
    ex.oblige(st, "a node of the tree is remembered", And(eqt(v.o, 0), eqt(v.i, 0), C.IN(x))); ex.oblige(st, "the stack is in order", And(eqt(b.o, 0), eqt(b.i, 0), 0 <= lift(n), lift(n) <= lift(c)))
    a = ex.alloc(st); rn, cn = fresh("stack", IntS), fresh("scap", IntS); ex.assume(st, [z3.Or(rn == lift(a.r), z3.And(rn == lift(b.r), lift(n) < lift(c))), rn > 0, cn > lift(n), cn < 2**56]); old = ex.row(st, "ptr", b.r, 0); C.quiet = True; row = ex.havoc_row(st, "ptr", rn, 0); C.quiet = False
    ex.assume(st, row == z3.Store(old, lift(n), v.term())); ex.write(st, "ptr", p, PtrV(rn, 0, 0)); ex.write(st, "i64", p.at(8), n + 1 if not is_c(n) else n + 1); ex.write(st, "i64", p.at(16), cn)
    I2 = z3.Const(fresh("IDX", IntS).decl().name(), AI); m = z3.Int("km"); ex.assume(st, z3.ForAll([m], I2[m] == z3.If(SUB(x, m), lift(n), I[m]), patterns=[I2[m]])); ex.setghost(st, "IDX", I2)
    C.pushed = getattr(C, "pushed", [])[-2:] + [x]; ex.assume(st, [U(x), KEEP(pr_(old[lift(n)]))])
KEEP = z3.Function("keep", IntS, B)
class Query(KT):
    def pre2(self, ex, st, args): self.P0 = st.copy(); return []
class Find(Query):
    def match(self, e): return dv(e, self.key)
    def moreinvs(self, ex, L, st): V = st.ghost["VIS"]; return [("no node done holds a match", all_(2, lambda m, j: z3.Implies(V[m], z3.Not(self.hit(self.T0, m, j))), lambda m, j: (WJ(m, j),)))]
    def post(self, ex, old, st, args, ret):
        T = self.T0; b, n, c = self.tmp(ex, st); null = eqt(ret.r, 0); f = getattr(self, "found", (z3.IntVal(0), z3.IntVal(0)))
        return [("null is returned only if no entry divides", all_(2, lambda m, j: z3.Implies(z3.And(lift(null), m > 0), z3.Not(self.hit(T, m, j))), lambda m, j: (WJ(m, j),))), ("otherwise an entry of the tree that divides", z3.Or(lift(null), z3.And(self.hit(T, lift(ret.r), lift(ret.i)), lift(ret.o) == lift(add(ex.u.off["b"], ex.u.eoff))))), ("the stack is left empty", n == 0)] + self.same(ex, st)
class FindAll(Query):
    def match(self, e): return dv(e, self.key)
    def post(self, ex, old, st, args, ret): return self.done(ex, st)
class FindMult(FindAll):
    def match(self, e): return dv(self.key, e)
class ForAll(FindAll):
    keyarg = None
    def match(self, e): return z3.BoolVal(True)
class Removal(KT):
    """entries go from the nodes that are done; the others keep theirs"""
    static = False
    def pre2(self, ex, st, args): self.P0 = st.copy(); return []
    def rest(self, ex, st):
        T, T0, V = TV(ex, st), self.T0, st.ghost["VIS"]; out = []
        for k, o in T.lfields(): out.append((f"nodes not done hold what they held ({k} at {o})", z3.BoolVal(True) if T.m[k].eq(T0.m[k]) else all_(1, lambda n: z3.Implies(z3.And(self.IN(n), T0.leaf(n), z3.Not(V[n])), z3.Select(T.m[k], Blk.mkblk(n, lift(o))) == z3.Select(T0.m[k], Blk.mkblk(n, lift(o)))), lambda n: (W(n),))))
        G = st.ghost["WIT"]
        return out + [("nodes done hold only entries they held", all_(2, lambda m, j: z3.Implies(z3.And(V[m], 0 <= j, j < T.ne(m)), z3.And(0 <= G[m][j], G[m][j] < T0.ne(m), T.ent(m, j) == T0.ent(m, G[m][j]))), lambda m, j: (WJ(m, j),))), ("the end of a node done is in its storage", all_(1, lambda n: z3.Implies(V[n], z3.And(pr_(T.end(n)) == n, po_(T.end(n)) == lift(ex.u.off["b"]), 0 <= T.ne(n), T.ne(n) <= T0.ne(n))), lambda n: (W(n),)))]
    def kept(self, ex, st): return self.same(ex, st) + self.rest(ex, st)
    def pre(self, ex, st, args): st.ghost["WIT"] = z3.Const("g_WIT", z3.ArraySort(IntS, AI)); return KT.pre(self, ex, st, args)
class Remove(Removal):
    def match(self, e): return dv(self.key, e)
    def left(self, ex, st, V=None): T = TV(ex, st); return all_(2, lambda m, j: z3.Implies(z3.And(V[m] if V is not None else z3.And(self.IN(m), self.T0.leaf(m)), 0 <= j, j < T.ne(m)), z3.Not(self.match(T.ent(m, j)))), lambda m, j: (WJ(m, j),))
    def moreinvs(self, ex, L, st): return self.rest(ex, st) + [("no node done holds a match", self.left(ex, st, st.ghost["VIS"]))]
    def post(self, ex, old, st, args, ret): return self.done(ex, st) + self.rest(ex, st) + [("no entry of the tree matches any more", self.left(ex, st)), ("the number of removed entries is returned", lift(ret) == st.ghost["count"])]
class RemoveOne(Removal):
    plain = True
    def match(self, e): return EQE(self.key, e)
    def moreinvs(self, ex, L, st): return self.rest(ex, st) + [("nothing is removed yet", st.ghost["count"] == 0)]
    def post(self, ex, old, st, args, ret):
        r = lift(ret); V = st.ghost["VIS"]; f = getattr(self, "one", None)
        return self.same(ex, st) + self.rest(ex, st) + [("false is returned only if no entry is equal", all_(2, lambda m, j: z3.Implies(z3.Not(r), z3.Not(self.hit(self.T0, m, j))), lambda m, j: (WJ(m, j),))), ("true is returned exactly if an equal entry went", r == (st.ghost["count"] == 1))]
class ClearAll(Removal):
    keyarg = None
    def hit(self, T, m, j): return z3.And(self.IN(m), T.leaf(m))
    def moreinvs(self, ex, L, st): return self.rest(ex, st)
    def post(self, ex, old, st, args, ret):
        b, n, c = self.tmp(ex, st); r = ex.read(st, "ptr", evalfn(ex, st, "specp_root", [self.t]))
        return [("the tree is empty", peq(r, PtrV(0, 0, 0))), ("the stack is left empty", n == 0), ("the memory was given back", st.ghost["freed"] == 1)]
def leafchange(ex, st, m, key):
    """node m's entries may be different afterwards"""
    C = ex.contract
    for nm, f in C.rest(ex, st): ex.oblige(st, "before a node is changed: " + nm, f)
    visit(ex, st, m, key)
    T = TV(ex, st); new = {}; e = z3.Int(fresh("end", IntS).decl().name()); pm = PtrV(m, 0, 0)
    for k, o in T.lfields()[1:]: ex.havoc_row(st, k, m, o)
    if ex.u.tmask and hasattr(ex.u, "tmoff"): pass
    C.quiet = True; ex.write(st, "ptr", PtrV(m, T.o["end"], 0), PtrV(m, T.o["b"], e)); C.quiet = False; G = st.ghost["WIT"]; G2 = z3.Const(fresh("WIT", IntS).decl().name(), z3.ArraySort(IntS, AI)); T2 = TV(ex, st); j = z3.Int("kj")
    ex.assume(st, [0 <= e, e <= C.T0.ne(m), G2 == z3.Store(G, m, z3.Const(fresh("wit", IntS).decl().name(), AI)), all_(2, lambda x, j: z3.Implies(z3.And(x == m, 0 <= j, j < e), z3.And(0 <= G2[m][j], G2[m][j] < C.T0.ne(m), T2.ent(m, j) == C.T0.ent(m, G2[m][j]))), lambda x, j: (WJ(x, j),))]); ex.setghost(st, "WIT", G2); return T2, e
def l_remove(ex, st, ins, args):
    C = ex.contract; m = leafof(ex, st, args[0]); T, e = leafchange(ex, st, m, keyof(ex, st, args[1])); c = st.ghost["count"]
    ex.assume(st, [all_(2, lambda x, j: z3.Implies(z3.And(x == m, 0 <= j, j < e), z3.Not(C.match(T.ent(m, j)))), lambda x, j: (WJ(x, j),)), c + C.T0.ne(m) - e < 2**56]); ex.setghost(st, "count", c + C.T0.ne(m) - e); return C.T0.ne(m) - e
def l_remove1(ex, st, ins, args):
    C = ex.contract; m = leafof(ex, st, args[0]); T, e = leafchange(ex, st, m, lift(ex.read(st, "i64", args[1]))); r = fresh("removed", B)
    ex.assume(st, [z3.Implies(r, e == C.T0.ne(m) - 1), z3.Implies(z3.Not(r), z3.And(e == C.T0.ne(m), all_(2, lambda x, j: z3.Implies(z3.And(x == m, 0 <= j, j < e), z3.Not(C.match(C.T0.ent(m, j)))), lambda x, j: (WJ(x, j),))))]); ex.setghost(st, "count", z3.If(r, z3.IntVal(1), z3.IntVal(0))); return r
def l_clear(ex, st, ins, args):
    C = ex.contract; m = leafof(ex, st, args[0]); T, e = leafchange(ex, st, m, None); ex.assume(st, e == 0)
def freeall(ex, st, ins, args):
    C = ex.contract; V = st.ghost["VIS"]; ex.oblige(st, "the memory is given back only once", st.ghost["freed"] == 0); ex.oblige(st, "before the memory goes, every node was cleared", all_(2, lambda m, j: z3.Implies(C.hit(C.T0, m, j), V[m]), lambda m, j: (WJ(m, j),))); ex.setghost(st, "freed", z3.IntVal(1))
A = r"mathic::KDEntryArray<.*>::"
def unit(packed=False, leaf=10, mask=True, tmask=True, remove=True, extra=()):
    b = lambda x: "true" if x else "false"
    hs = [(r"vp_freeAll", freeall), (A + r"removeMultiples<", l_remove), (A + r"removeElement<", l_remove1), (A + r"clear\(", l_clear), (r"^vp_\w+$", lambda ex, st, ins, a: ex.fresh_val(st, ins.ty) if ins.ty.k != 'void' else None), (r"Conf::getExponent\(", KL.h_expo), (A + r"findDivisor<", l_find), (A + r"(findAllDivisors|findAllMultiples|forAll)<", l_all), (r"std::vector<.*Node\*>::push_back\(", v_push)] + list(extra) + D.CONF + D.CALC + NEWDEL
    u = Unit("kdtree.cpp", hs, defines=[f"LEAF={leaf}", f"MASK={b(mask)}", f"TMASK={b(tmask)}", f"REMOVE={b(remove)}"] + (["PACKED"] if packed else []), bytegep=1 << 40); u.packed, u.leaf, u.mask, u.tmask, u.remove, u.eoff = packed, leaf, mask, tmask, remove, 8 if mask else 0
    return u
Q = [("d_findDivisor", Find), ("d_findAllDivisors", FindAll)]
M = [("d_findAllMultiples", FindMult), ("d_forAll", ForAll)]
M += [("d_removeMultiples", Remove), ("d_removeElement", RemoveOne)]
I = [("d_clear", ClearAll)]
VARIANTS = [(True, True), (True, False), (False, False)]
