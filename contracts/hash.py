"""Contracts for HashTable (T03).  Chains are described by ghost maps: IN (which nodes are stored), POS (place of a node in its chain), AT (node at a
place of a chain), LEN (length of a chain); BIN(node) is the hash of its key cut to the size of the table."""
from .spec import *
from .vec import VecLib
from vcg.unit import Unit
CLS = z3.Function("key_class", IntS, IntS)          # keys are equal iff their classes are
HSH = z3.Function("hash_of", IntS, IntS)            # equal keys have equal hashes: the hash is one of the class
ANDF = z3.Function("bitand64", IntS, IntS, IntS)
IB = z3.ArraySort(IntS, B); II = z3.ArraySort(IntS, IntS); III = z3.ArraySort(IntS, II)
KEEP = z3.Function('keep', IntS, B)
def ground(fs): return [f.arg(0) for f in fs]
def dedup(xs): return list({x.get_id(): x for x in xs}.values())
class G:
    """a description of the chains"""
    def __init__(self, IN, POS, AT, LEN, plain=False): self.IN, self.POS, self.AT, self.LEN, self.plain = IN, POS, AT, LEN, plain
    def all(self, n, f, pat):
        """for all; where the description consists of plain maps, with the given terms as triggers"""
        if not self.plain: return forall(n, f)
        vs = [z3.Int(f"q{k}") for k in range(n)]; ps = pat(*vs); return z3.ForAll(vs, f(*vs), patterns=[z3.MultiPattern(*p) if isinstance(p, tuple) else p for p in ps])
class Tab:
    def __init__(self, ex, st, t):
        self.size = lift(ex.read(st, "i64", evalfn(ex, st, "specp_size", [t]))); self.mask = lift(ex.read(st, "i64", evalfn(ex, st, "specp_mask", [t]))); self.pv = evalfn(ex, st, "specp_table", [t])
        self.b, self.n, self.c = VecLib.fields(ex, st, self.pv); self.end = ex.read(st, "i8", evalfn(ex, st, "specp_end", [t])); self.row = ex.row(st, "ptr", self.b.r, 0)
    def bin(self, h): return ANDF(h, self.mask)
PT = lambda r: PtrV(r, 0, 0).term()
class HT(Contract):
    ghosted = True
    def off(self, ex, st):
        z = PtrV(z3.Int("zz"), 0, 0); self.ok, self.ov = evalfn(ex, st, "specp_key", [z]).o, evalfn(ex, st, "specp_value", [z]).o; assert evalfn(ex, st, "specp_next", [z]).o == 0
    def key(self, ex, st, r): return z3.Select(ex.memterm(st, "i64"), Blk.mkblk(lift(r), self.ok))[0]
    def val(self, ex, st, r): return z3.Select(ex.memterm(st, "i64"), Blk.mkblk(lift(r), self.ov))[0]
    def nxt(self, ex, st, r): return z3.Select(ex.memterm(st, "ptr"), Blk.mkblk(lift(r), 0))[0]
    def bin(self, ex, st, T_, r): return T_.bin(HSH(CLS(self.key(ex, st, r))))
    def shape(self, ex, st):
        V = Tab(ex, st, self.t)
        return [("the table has its size", And(eqt(V.n, V.size), le(V.n, V.c), eqt(V.b.o, 0), eqt(V.b.i, 0), lt(0, V.b.r), le(1, V.size))), ("the mask fits the size", eqt(V.mask, sub(V.size, 1))), ("insertion is at the end of a chain", lift(V.end) == 1)]
    def wf(self, ex, st, g, b_=None, pre=""):
        V = Tab(ex, st, self.t); b_ = (lambda r: self.bin(ex, st, V, r)) if b_ is None else b_; IN = g.IN
        return self.shape(ex, st) + [
            (pre+"a slot starts its chain", g.all(1, lambda b: z3.Implies(z3.And(0 <= b, b < V.size), z3.And(g.LEN(b) >= 0, V.row[b] == z3.If(g.LEN(b) == 0, NULL.term(), PT(g.AT(b, 0))))), lambda b: [V.row[b], g.LEN(b)])),
            (pre+"a chain consists of nodes of its slot, in order", g.all(2, lambda b, j: z3.Implies(z3.And(0 <= b, b < V.size, 0 <= j, j < g.LEN(b)), z3.And(IN(g.AT(b, j)), b_(g.AT(b, j)) == b, g.POS(g.AT(b, j)) == j)), lambda b, j: [g.AT(b, j)])),
            (pre+"every node is in the chain of its slot", g.all(1, lambda r: z3.Implies(IN(r), z3.And(0 <= b_(r), b_(r) < V.size, 0 <= g.POS(r), g.POS(r) < g.LEN(b_(r)), g.AT(b_(r), g.POS(r)) == r)), lambda r: [g.POS(r), self.nxt(ex, st, r)])),
            (pre+"a node leads to the next of its chain", g.all(1, lambda r: z3.Implies(IN(r), self.nxt(ex, st, r) == z3.If(g.POS(r) + 1 < g.LEN(b_(r)), PT(g.AT(b_(r), g.POS(r)+1)), NULL.term())), lambda r: [self.nxt(ex, st, r)])),
            (pre+"nodes have storage of their own", g.all(1, lambda r: z3.Implies(IN(r), z3.And(0 < r, r < lift(st.next), r != lift(V.b.r), r != lift(self.t.r))), lambda r: [g.POS(r)])),
            (pre+"no two nodes have equal keys", g.all(2, lambda r, s: z3.Implies(z3.And(IN(r), IN(s), CLS(self.key(ex, st, r)) == CLS(self.key(ex, st, s))), r == s), lambda r, s: [(g.POS(r), g.POS(s))]))]
    def g0(self):
        a = self.A = (z3.Const("IN0", IB), z3.Const("POS0", II), z3.Const("AT0", III), z3.Const("LEN0", II)); return self.arr(*a)
    def arr(self, i, p, a, l): return G(lambda r: z3.Select(i, r), lambda r: z3.Select(p, r), lambda b, j: z3.Select(z3.Select(a, b), j), lambda b: z3.Select(l, b), True)
    def pre(self, ex, st, args):
        t = self.t = args[0]; self.off(ex, st); r, n, c = z3.Ints("tab_root tab_n tab_cap"); V = evalfn(ex, st, "specp_table", [t])
        self.rts = [t.r, r]
        ex.write(st, "ptr", V, PtrV(r, 0, 0)); ex.write(st, "i64", V.at(8), n); ex.write(st, "i64", V.at(16), c); ex.write(st, "i64", evalfn(ex, st, "specp_size", [t]), n); ex.write(st, "i64", evalfn(ex, st, "specp_mask", [t]), n - 1)
        out = [1 <= n, n <= c, c < 2**56, 0 < r, r < st.next] + [lift(x) != r for x in [a.r for a in args if isinstance(a, PtrV)]] + [lift(x.r) != lift(y.r) for i, x in enumerate(args) for y in args[:i] if isinstance(x, PtrV) and isinstance(y, PtrV)]
        a, b = z3.Ints("ba bb"); out += [z3.ForAll([a, b], z3.Implies(z3.And(a >= 0, b >= 0), z3.And(ANDF(a, b) >= 0, ANDF(a, b) <= b)), patterns=[ANDF(a, b)]), z3.ForAll([a], z3.And(HSH(a) >= 0, HSH(a) < 2**64), patterns=[HSH(a)])]
        g = self.g = self.g0(); out += self.chains(ex, st, g, list(out))
        out += [forall(1, lambda q: z3.Implies(g.IN(q), z3.And(*[q != lift(x.r) for x in args if isinstance(x, PtrV)])))] if not isinstance(self, Remove) else []
        for nm, x in zip(("IN", "POS", "AT", "LEN"), self.A): st.ghost[nm] = x
        st.ghost["node"] = z3.IntVal(0)
        return out + self.pre2(ex, st, args)
    def pre2(self, ex, st, args): return []
    def chains(self, ex, st, g, given): return [f for _, f in self.wf(ex, st, g)]
    def kept(self, ex, old, st, g): return ("every stored node keeps its key and its value", g.all(1, lambda r: z3.Implies(g.IN(r), z3.And(self.key(ex, st, r) == self.key(ex, old, r), self.val(ex, st, r) == self.val(ex, old, r))), lambda r: [g.POS(r)]))
    def roots(self, ex, st): return []
    def invs(self, ex, L, st):
        E = L.entry; out = [("table kept", And(*[f for _, f in self.shape(ex, st)], eqt(Tab(ex, st, self.t).size, Tab(ex, E, self.t).size), peq(Tab(ex, st, self.t).b, Tab(ex, E, self.t).b))), ("links kept", ex.memterm(st, "ptr") == ex.memterm(E, "ptr")), ("numbers kept", ex.memterm(st, "i64") == ex.memterm(E, "i64")), ("flags kept", ex.memterm(st, "i8") == ex.memterm(E, "i8"))]
        g = self.g; V = Tab(ex, ex.pre, self.t); b = self.home(ex) if self.kc is not None else None
        for nm, p in phis_of(L, st, "ptr").items():
            if b is None: continue
            z = eqt(p.r, 0); r = lift(p.r); node = And(eqt(p.o, 0), eqt(p.i, 0), g.IN(r), self.bin(ex, ex.pre, V, r) == b)
            out += [(f"{nm} is a node of the chain or null", Or(And(z, eqt(p.o, 0), eqt(p.i, 0)), node)), (f"{nm} is a node of the chain", node),
                (f"no equal key before {nm}", g.all(1, lambda s: z3.Implies(z3.And(g.IN(s), self.bin(ex, ex.pre, V, s) == b, z3.Or(lift(z), g.POS(s) < g.POS(r))), CLS(self.key(ex, ex.pre, s)) != self.kc), lambda s: [g.POS(s)])),
                (f"{nm} is the slot or the link of a node before the one to remove", Or(And(eqt(p.r, V.b.r), eqt(p.o, 0), eqt(p.i, b)), And(node, g.POS(r) < self.rpos(ex))) if isinstance(self, Remove) else True)]
        return out
    kc = None
    def rpos(self, ex): return z3.IntVal(0)
    def home(self, ex): return Tab(ex, ex.pre, self.t).bin(HSH(self.kc))
    def gs(self, ex, st): return self.g
    def extra_facts(self, ex, st, goal, sk):
        if not hasattr(ex, "pre"): return []
        if "framed_root" in goal.sexpr() or any(z3.is_int(s) and "framed_root" in str(f) for s in sk for f in []): return [z3.Function("framed_root", IntS, B)(s) for s in sk if z3.is_int(s)]
        rs = [s for s in sk if z3.is_int(s)]; g = self.g; sd = {}; V0 = Tab(ex, ex.pre, self.t); nodes = list(rs)
        for v in list(st.env.values()):
            if isinstance(v, PtrV): nodes.append(lift(v.r))
        nodes += self.nodes(ex, st); bins = [self.home(ex)] if self.kc is not None else []
        out = [g.POS(r) >= g.POS(r) for r in nodes] + [g.LEN(b) >= g.LEN(b) for b in bins + rs]           # terms before the solver
        for r in nodes: b = self.bin(ex, ex.pre, V0, r); out += [g.LEN(b) == g.LEN(b), g.AT(b, g.LEN(b) - 1) == g.AT(b, g.LEN(b) - 1)]
        for b in bins: out += [g.AT(b, 0) == g.AT(b, 0), g.AT(b, g.LEN(b) - 1) == g.AT(b, g.LEN(b) - 1)]
        for x in rs + self.more(ex, st, rs): x = z3.simplify(lift(x)); sd[x.get_id()] = x
        return [z3.Function("keepb", B, B)(z3.simplify(o)) if False else KEEP(o) for o in dedup(ground(out))] + seeds(*sd.values())
    def nodes(self, ex, st): return []
    def more(self, ex, st, rs): return []
class Lookup(HT):
    def pre2(self, ex, st, args): self.kc = CLS(lift(ex.read(st, "i64", args[1]))); return []
    def post(self, ex, old, st, args, ret):
        g = self.g; z = eqt(ret.r, 0); r = lift(ret.r)
        return [("nothing is changed", And(ex.memterm(st, "ptr") == ex.memterm(old, "ptr"), ex.memterm(st, "i64") == ex.memterm(old, "i64"))), ("null only if the key is absent", Implies(z, forall(1, lambda s: z3.Implies(g.IN(s), CLS(self.key(ex, old, s)) != self.kc)))),
            ("otherwise the stored node with the key", Or(z, And(eqt(ret.o, 0), eqt(ret.i, 0), g.IN(r), CLS(self.key(ex, old, r)) == self.kc)))]
class Insert(Lookup):
    def pre2(self, ex, st, args): self.v = lift(ex.read(st, "i64", args[2])); self.k = lift(ex.read(st, "i64", args[1])); return Lookup.pre2(self, ex, st, args) + [Tab(ex, st, self.t).size < 2**50, lift(ex.read(st, "i64", evalfn(ex, st, "specp_log", [self.t]))) < 60]
    def appended(self, g, b, r):
        n = g.LEN(b)
        return G(lambda s: z3.Or(g.IN(s), s == r), lambda s: z3.If(s == r, n, g.POS(s)), lambda c, j: z3.If(z3.And(c == b, j == n), r, g.AT(c, j)), lambda c: z3.If(c == b, n + 1, g.LEN(c)))
    def nodes(self, ex, st): return [st.ghost["node"]]
    def final(self, ex, st):
        """the chains now: those the growth step left, or the old ones with the new node appended"""
        new = st.ghost["node"]
        if "grown" in st.ghost: return self.arr(*[st.ghost[n] for n in ("IN", "POS", "AT", "LEN")])
        return self.appended(self.g, self.home(ex), new) if not eqc(new, 0) else self.g
    def post(self, ex, old, st, args, ret):
        g = self.g; out = args[3]; ok = lift(ex.read(st, "i8", evalfn(ex, st, "specp_rfirst", [out]))) == 1; h = ex.read(st, "ptr", evalfn(ex, st, "specp_rsecond", [out])); r = lift(h.r); f = self.final(ex, st)
        present = lambda s: z3.And(g.IN(s), CLS(self.key(ex, old, s)) == self.kc)
        return self.wf(ex, st, f) + [self.kept(ex, old, st, g), ("a node is returned", And(eqt(h.o, 0), eqt(h.i, 0), f.IN(r))), ("failure if the key is present, and then its node", Implies(Not(ok), And(present(r), forall(1, lambda s: f.IN(s) == g.IN(s))))),
            ("success only if the key is absent", Implies(ok, And(forall(1, lambda s: z3.Not(present(s)))))), ("on success the new node holds the key and the value", Implies(ok, And(Not(g.IN(r)), self.key(ex, st, r) == self.k, self.val(ex, st, r) == self.v, forall(1, lambda s: f.IN(s) == z3.Or(g.IN(s), s == r)))))]
def eqc(x, v): return z3.is_int_value(lift(x)) and lift(x).as_long() == v
class Remove(HT):
    def pre2(self, ex, st, args):
        g = self.g; self.pp = args[1]; h = z3.Int("victim"); ex.write(st, "ptr", args[1], PtrV(h, 0, 0)); self.h = h; V = Tab(ex, st, self.t)
        self.kc = CLS(self.key(ex, st, h)); self.hp = g.POS(h); return [g.IN(h), forall(1, lambda q: z3.Implies(g.IN(q), q != lift(args[1].r)))]
    def rpos(self, ex): return self.hp
    def nodes(self, ex, st): return [self.h]
    def post(self, ex, old, st, args, ret):
        g = self.g; b = self.home(ex); k = self.hp; V = Tab(ex, old, self.t); h = self.h
        f = G(lambda s: z3.And(g.IN(s), s != h), lambda s: z3.If(z3.And(self.bin(ex, old, V, s) == b, g.POS(s) > k), g.POS(s) - 1, g.POS(s)), lambda c, j: z3.If(z3.And(c == b, j >= k), g.AT(c, j+1), g.AT(c, j)), lambda c: z3.If(c == b, g.LEN(c) - 1, g.LEN(c)))
        return self.wf(ex, st, f) + [self.kept(ex, old, st, g)]
class Grow(HT):
    """every node goes to the end of its new chain; the chains of the slots not yet visited stay"""
    def chains(self, ex, st, g, given):
        """what the description of the old chains says, in terms of the next node and the first node of a slot; each fact is derived from the description here"""
        V = Tab(ex, st, self.t); r, s, b = z3.Ints("rr ss bb"); self.OB = z3.Function("bin_before", IntS, IntS); NX, HD = z3.Function("next_before", IntS, IntS), z3.Function("first_before", IntS, IntS)
        OB, POS, AT, LEN, IN = self.OB, g.POS, g.AT, g.LEN, g.IN; self.NX = NX
        q = lambda vs, f, *pat: z3.ForAll(vs, f, patterns=[z3.MultiPattern(*pat) if len(pat) > 1 else pat[0]])
        P = lambda x: z3.If(x == 0, NULL.term(), PT(x))
        defs = [q([r], OB(r) == self.bin(ex, st, V, r), OB(r)), q([r], NX(r) == z3.If(POS(r) + 1 < LEN(OB(r)), AT(OB(r), POS(r) + 1), 0), NX(r)), q([b], HD(b) == z3.If(LEN(b) == 0, 0, AT(b, 0)), HD(b))]
        n = V.size; wf = self.wf(ex, st, g)
        der = [("a slot holds its first node", lambda b, r, s: z3.Implies(z3.And(0 <= b, b < n), z3.And(V.row[b] == P(HD(b)), z3.Implies(HD(b) != 0, z3.And(IN(HD(b)), OB(HD(b)) == b, POS(HD(b)) == 0)))), [b], [V.row[b]]),
            ("an empty slot has no nodes", lambda b, r, s: z3.Implies(z3.And(IN(s), HD(OB(s)) == 0), False), [s], [HD(OB(s))]),
            ("a node leads to the next", lambda b, r, s: z3.Implies(IN(r), z3.And(self.nxt(ex, st, r) == P(NX(r)), z3.Implies(NX(r) != 0, z3.And(IN(NX(r)), OB(NX(r)) == OB(r), POS(NX(r)) == POS(r) + 1)))), [r], [self.nxt(ex, st, r)]),
            ("the last node has the last place", lambda b, r, s: z3.Implies(z3.And(IN(r), IN(s), NX(r) == 0, OB(s) == OB(r)), POS(s) <= POS(r)), [r, s], [NX(r), POS(s)]),
            ("places are distinct", lambda b, r, s: z3.Implies(z3.And(IN(r), IN(s), OB(s) == OB(r), POS(s) == POS(r)), r == s), [r, s], [POS(r), POS(s)]),
            ("places count from zero", lambda b, r, s: z3.Implies(IN(r), z3.And(POS(r) >= 0, 0 <= OB(r), OB(r) < n)), [r], [POS(r)])]
        s2 = st.copy(); s2.facts = list(st.facts); [ex.assume(s2, x) for x in given + [f for _, f in wf] + defs]
        for nm, f, vs, pat in der:
            k = [z3.Int("k" + str(v)) for v in (b, r, s)]; s3 = s2.copy(); s3.facts = list(s2.facts)
            for x in [POS(k[1]), POS(k[2]), AT(OB(k[1]), POS(k[1])), AT(OB(k[2]), POS(k[2])), AT(OB(k[1]), POS(k[1])+1), AT(k[0], 0), AT(OB(k[2]), 0), LEN(k[0])]: s3.facts.append(KEEP(x))
            ex.oblige(s3, "old chains: " + nm, f(*k))
        return [f for nm, f in wf if nm in ("the table has its size", "the mask fits the size", "insertion is at the end of a chain", "nodes have storage of their own", "no two nodes have equal keys")] + defs[:1] + [q(vs, f(b, r, s), *pat) for nm, f, vs, pat in der]
    def pre2(self, ex, st, args):
        self.nb = lift(args[1]); P2 = z3.Function("pow2", IntS, IntS); out = [P2(self.nb) < 2**56, P2(self.nb) >= 1, 0 <= self.nb, self.nb < 2**32]
        for nm, s in (("POS2", II), ("AT2", III), ("LEN2", II), ("DONE", IB)): st.ghost[nm] = z3.Const(nm + "_0", s)
        x = z3.Int("lx"); out += [z3.ForAll([x], st.ghost["LEN2"][x] == 0, patterns=[st.ghost["LEN2"][x]]), z3.ForAll([x], z3.Not(st.ghost["DONE"][x]), patterns=[st.ghost["DONE"][x]])]; st.ghost["home"] = z3.IntVal(0)
        V = Tab(ex, st, self.t); r = z3.Int("rr"); self.NB = z3.Function("bin_after", IntS, IntS); h = HSH(CLS(self.key(ex, st, r)))
        out += [z3.ForAll([r], self.NB(r) == ANDF(h, P2(self.nb) - 1), patterns=[self.NB(r)])]
        return out
    def g2(self, st, IN): a = self.arr(None, st.ghost["POS2"], st.ghost["AT2"], st.ghost["LEN2"]); return G(IN, a.POS, a.AT, a.LEN, True)
    def on_write(self, ex, st, kind, p, v):
        """a node's address is stored in a slot or in the link of a node: the node is then at the end of its new chain"""
        if kind != "ptr" or not isinstance(v, PtrV) or v is NULL or (is_c(v.r) and v.r == 0): return
        if p.r is self.t.r or (z3.is_expr(p.r) and z3.is_expr(self.t.r) and p.r.eq(self.t.r)): return
        if is_c(p.r) and p.r < 0: return
        if any(isinstance(a, PtrV) and a.r is p.r or eqt(a.r, p.r) is True for a in self.locals(ex, st)): return
        V = Tab(ex, st, self.t); r = lift(v.r); b = self.NB(r); on = r != 0; gh = st.ghost; n = gh["LEN2"][b]
        P, A, Ln, D = gh["POS2"], gh["AT2"], gh["LEN2"], gh["DONE"]; P2, A2, L2, D2 = fresh("POS2", II), fresh("AT2", III), fresh("LEN2", II), fresh("DONE", IB)
        ex.assume(st, z3.Implies(on, z3.And(P2 == z3.Store(P, r, n), A2 == z3.Store(A, b, z3.Store(A[b], n, r)), L2 == z3.Store(Ln, b, n + 1), D2 == z3.Store(D, r, True)))); ex.assume(st, z3.Implies(z3.Not(on), z3.And(P2 == P, A2 == A, L2 == Ln, D2 == D)))
        ex.setghost(st, "POS2", P2); ex.setghost(st, "AT2", A2); ex.setghost(st, "LEN2", L2); ex.setghost(st, "DONE", D2)
    def locals(self, ex, st): return [st.env[i.res] for b in ex.f.order for i in ex.f.blocks[b] if i.op == "alloca" and i.res in st.env]
    def oldvec(self, ex, st):
        """the storage of the old table"""
        return PtrV(z3.Int("tab_root"), 0, 0)
    def done(self, ex, st, i, p, at=None):
        """nodes already moved: those of slots before i, and those of slot i before p"""
        V0 = Tab(ex, ex.pre, self.t); g = self.g; b_ = self.OB
        if p is None: return lambda r: z3.And(g.IN(r), b_(r) < lift(i))
        return lambda r: z3.And(g.IN(r), z3.Or(b_(r) < lift(i), z3.And(b_(r) == lift(i), z3.Or(lift(eqt(p.r, 0)), g.POS(r) < g.POS(lift(p.r))))))
    def invs(self, ex, L, st):
        E = L.entry; g = self.g; V, VE, V0 = Tab(ex, st, self.t), Tab(ex, E, self.t), Tab(ex, ex.pre, self.t); out = [("table kept", And(*[f for _, f in self.shape(ex, st)], eqt(V.size, VE.size), peq(V.b, VE.b), eqt(V.mask, VE.mask)))]
        out.append(("new storage", And(lt(0, V.b.r), lift(V.b.r) >= lift(ex.pre.next), V.size == z3.Function("pow2", IntS, IntS)(self.nb))))
        oldrow = ex.row(st, "ptr", V0.b.r, 0); out.append(("old table kept", oldrow == V0.row)); out.append(("local objects kept", And(*[eqt(ex.row(st, k, a.r, o), ex.row(E, k, a.r, o)) for a in self.locals(ex, st) for k, o in (("ptr", 0), ("i64", 8), ("i64", 16))]))); out.append(self.kept(ex, ex.pre, st, g))
        if len(L.outer) > 1: out += [("links kept", ex.memterm(st, "ptr") == ex.memterm(E, "ptr"))]; out.append(("ghost kept", And(*[st.ghost[n] == E.ghost[n] for n in ("POS2", "AT2", "LEN2", "DONE")])))
        out += self.others(ex, ex.pre, st)
        b0 = self.OB; ph = phis_of(L, st, "ptr"); outer = [(n, v) for LL in L.outer for n, v in phis_of(LL, st, "i64").items()]
        def split(nm, D):
            r_ = [(f"{nm} are moved", g.all(1, lambda r: z3.Select(st.ghost["DONE"], r) == D(r), lambda r: [z3.Select(st.ghost["DONE"], r)]))]
            return r_
        if len(L.outer) < 2:
            D = lambda r: z3.Select(st.ghost["DONE"], r); out += [(f"moved nodes: " + n, f) for n, f in self.wf(ex, st, self.g2(st, D), self.NB)[3:-1]]
            out.append((f"the nodes not moved are as they were", forall(1, lambda r: z3.Implies(z3.And(g.IN(r), z3.Not(D(r))), self.nxt(ex, st, r) == self.nxt(ex, ex.pre, r)))))
            out.append(("moved nodes are nodes", g.all(1, lambda r: z3.Implies(D(r), g.IN(r)), lambda r: [D(r)])))
        for nm, i in phis_of(L, st, "i64").items():
            out.append((f"{nm} counts slots", le(i, V0.size)))
            if not ph: out += split(f"slots before {nm}", self.done(ex, st, i, None))
        for nm, p in ph.items():
            for n2, i in (outer if len(L.outer) < 2 else []):
                r = lift(p.r); out.append((f"{nm} is a node of slot {n2} or null", Or(And(eqt(p.r, 0), eqt(p.o, 0), eqt(p.i, 0)), And(eqt(p.o, 0), eqt(p.i, 0), g.IN(r), b0(r) == lift(i)))))
                out += split(f"slot {n2} before {nm}", self.done(ex, st, i, p))
            for hb in ([V.bin(st.ghost["home"])] if len(L.outer) > 1 else []):
                out.append((f"{nm} is in the new chain", And(eqt(p.o, 0), eqt(p.i, 0), self.isnew(ex, st, lift(p.r)), self.NB(lift(p.r)) == hb)))
        return out
    def isnew(self, ex, st, r):
        V = Tab(ex, st, self.t); b = self.NB(r); G2 = self.g2(st, None); return z3.And(r > 0, 0 <= G2.POS(r), G2.POS(r) < G2.LEN(b), G2.AT(b, G2.POS(r)) == r, 0 <= b, b < V.size)
    def post(self, ex, old, st, args, ret):
        g = self.g; f = self.g2(st, g.IN)
        return self.wf(ex, st, f) + [self.kept(ex, old, st, g)] + self.others(ex, old, st)
    def others(self, ex, old, st):
        FR = z3.Function("framed_root", IntS, B); x, o = z3.Ints("fr_root fr_off"); T0 = lift(self.t.r); m = lambda s, k: z3.Select(ex.memterm(s, k), Blk.mkblk(x, o)); q = lambda f: z3.ForAll([x, o], z3.Implies(z3.And(0 < x, x < lift(ex.pre.next), x != T0, FR(x), f), z3.And(*[m(st, k) == m(old, k) for k in self.fk])), patterns=[z3.MultiPattern(FR(x), FR(o))])
        self.fk = ["ptr"]; a = q(z3.Not(self.g.IN(x))); self.fk = ["i64"]; b = q(z3.BoolVal(True))
        return [("other objects keep their pointers", a), ("other objects keep their numbers", b)]
    def more(self, ex, st, rs):
        V = Tab(ex, st, self.t); ns = rs[:2] + [lift(v.r) for v in st.env.values() if isinstance(v, PtrV)]; out = []; g2 = self.g2(st, None)
        for r in ns: b = self.NB(r); out += [b, g2.POS(r), g2.POS(r) + 1, g2.LEN(b), g2.LEN(b) - 1, g2.AT(b, 0), g2.AT(b, g2.POS(r) + 1)]
        for nm, v in st.env.items():
            if not isinstance(v, (bool, PtrV, list)) and not is_c(v) and z3.is_int(v) and z3.is_const(v): out += [v, v - 1]
        if len(rs) > 1: out += [g2.AT(rs[0], rs[1])]
        return out
class Ctor(HT):
    def pre(self, ex, st, args):
        self.t = args[0]; self.off(ex, st); a, b = z3.Ints("ba bb"); P2 = z3.Function("pow2", IntS, IntS)(lift(args[2])); self.kc = None
        self.g = G(lambda r: z3.BoolVal(False), lambda r: z3.IntVal(0), lambda b, j: z3.IntVal(0), lambda b: z3.IntVal(0))
        return [P2 >= 1, P2 < 2**56, lift(args[0].r) != lift(args[1].r)]
    def post(self, ex, old, st, args, ret): return self.wf(ex, st, self.g)
    def invs(self, ex, L, st): return []
    def extra_facts(self, ex, st, goal, sk): return seeds(*[s for s in sk if z3.is_int(s)])

def h_hash(ex, st, ins, args):
    t = HSH(CLS(lift(args[-1])))
    if "home" in st.ghost: ex.setghost(st, "home", t)
    return t
def h_equal(ex, st, ins, args): return CLS(lift(args[-2])) == CLS(lift(args[-1]))
def h_alloc(ex, st, ins, args):
    p = ex.alloc(st); ex.setghost(st, "node", lift(p.r)) if "node" in st.ghost else None; return p
def h_grow(ex, st, ins, args):
    """the contract of grow, proved as `grow`: the chains are rebuilt for a new table, nodes keep keys and values"""
    C = ex.contract; f = C.final(ex, st); old = st.copy()
    for n, x in C.wf(ex, st, f): ex.oblige(st, "before growth: " + n, x)
    t = args[0]; q = ex.alloc(st); n, cap = fresh("tab_n", IntS), fresh("tab_cap", IntS); pv = evalfn(ex, st, "specp_table", [t])
    mi = ex.memterm(old, "i64"); ex.havoc_kind(st, "ptr"); mp = ex.memterm(old, "ptr")
    ex.assume(st, forall(1, lambda r: z3.Implies(z3.And(z3.Not(f.IN(r)), r != lift(q.r)), z3.ForAll([z3.Int("oo")], z3.Select(ex.memterm(st, "ptr"), Blk.mkblk(r, z3.Int("oo"))) == z3.Select(mp, Blk.mkblk(r, z3.Int("oo"))), patterns=[z3.Select(ex.memterm(st, "ptr"), Blk.mkblk(r, z3.Int("oo")))]))))
    ex.write(st, "ptr", pv, q); ex.write(st, "i64", pv.at(8), n); ex.write(st, "i64", pv.at(16), cap); ex.write(st, "i64", evalfn(ex, st, "specp_size", [t]), n); ex.write(st, "i64", evalfn(ex, st, "specp_mask", [t]), n - 1)
    for fld in ("specp_log", "specp_bins", "specp_max"): ex.write(st, "i64", evalfn(ex, st, fld, [t]), fresh("log", IntS))
    IN2 = fresh("IN", IB); ex.assume(st, forall(1, lambda r: IN2[r] == f.IN(r))); A = (IN2, fresh("POS", II), fresh("AT", III), fresh("LEN", II))
    for nm, x in zip(("IN", "POS", "AT", "LEN"), A): ex.setghost(st, nm, x)
    st.ghost["grown"] = z3.BoolVal(True)
    for _, x in C.wf(ex, st, C.arr(*A)): ex.assume(st, x)
    ex.assume(st, [n >= 1, n < 2**56, cap >= n, cap < 2**60])
VL = VecLib({"mathic::HashTable<Conf>::Handle*": [(0, "ptr")]})
def floor_h(ex, st, ins, args): return z3.Function("floor", FpS, FpS)(args[0])
BASE = [(r"Conf::hash\(", h_hash), (r"Conf::keysEqual\(", h_equal), (r"BufferPool::alloc\(", h_alloc), (r"^floor$|std::floor\(", floor_h)] + NEWDEL + VL.handlers()
def unit(modular=False): return Unit("hash.cpp", BASE + ([(r"HashTable<Conf>::grow\(", h_grow)] if modular else []), flags=["-ffp-contract=off"])
def grow_name(u):
    return next(n for n in u.module.fns if "HashTable<Conf>::grow(" in u.demangle(n))
JOBS = [("hash", unit, "d_lookup", Lookup), ("hash modular", lambda: unit(True), "d_insert", Insert), ("hash", unit, "d_remove", Remove), ("hash", unit, "d_grow", Grow), ("hash", unit, "d_ctor", Ctor)]
