"""Contracts for NameFactory (C01)."""
from .strs import *
from .vec import VecLib, VEC
from vcg.unit import Unit
PRE = z3.Function("prefix_of", IntS, IntS, B)            # definition below
CNT = z3.Function("cnt", IntS, IntS); AT = z3.Function("at", IntS, IntS)     # number of matches among the first i pairs; index of the j-th match
PROD = z3.Function("product", PtrD, IntS)                # what a factory function returns
PT = "std::pair<std::string, std::unique_ptr<Product> (*)()>"
def pre_def():
    p, s = z3.Ints("pp ps"); n = z3.If(SLEN(p) > SLEN(s), SLEN(s), SLEN(p))
    return [z3.ForAll([p, s], PRE(p, s) == (SUB(s, 0, n) == p), patterns=[PRE(p, s)]), z3.ForAll([p], z3.Implies(p >= 0, z3.And(SLEN(p) >= 0, SUB(p, 0, SLEN(p)) == p)), patterns=[PRE(p, p)])]

KEEP = z3.Function('keep', IntS, B)      # true everywhere; puts a term before the solver
class NC(Contract):
    def pairs(self, ex, st):
        b, n, c = VecLib.fields(ex, st, evalfn(ex, st, "specp_pairs", [self.f])); return b, n, c
    def reg(self, ex, st):
        b, n, c = self.pairs(ex, st); return ex.row(st, "i64", b.r, 0), ex.row(st, "ptr", b.r, 8), lift(n)
    def pre(self, ex, st, args):
        self.f = args[0]; p = evalfn(ex, st, "specp_pairs", [self.f]); b, n, c = z3.Ints("reg_root reg_n reg_cap")
        ex.write(st, "ptr", p, PtrV(b, 0, 0)); ex.write(st, "i64", p.at(8), n); ex.write(st, "i64", p.at(16), c)
        out = [0 <= n, n <= c, c < 2**56, b >= 0, b < st.next, (b == 0) == (c == 0)] + [b != lift(a.r) for a in args if isinstance(a, PtrV)] + [lift(x.r) != lift(y.r) for i, x in enumerate(args) for y in args[:i] if isinstance(x, PtrV) and isinstance(y, PtrV)]
        nm = self.nm = ex.row(st, "i64", b, 0); self.fn = ex.row(st, "ptr", b, 8); self.n = n
        i, j = z3.Ints("ri rj")
        out += [z3.ForAll([i], z3.And(nm[i] >= 0, nm[i] < 2**64, SLEN(nm[i]) >= 0), patterns=[nm[i]]),
                z3.ForAll([i, j], z3.Implies(z3.And(0 <= i, i < j, j < n), nm[i] != nm[j]), patterns=[z3.MultiPattern(nm[i], nm[j])])]
        self.key = lift(ex.read(st, "i64", args[1])) if len(args) > 1 and isinstance(args[1], PtrV) else z3.IntVal(0)
        out += pre_def() + [SLEN(self.key) >= 0, SLEN(self.key) < 2**56]
        m = lambda k: PRE(self.key, nm[k])
        # definitions of cnt and at (the matches in order)
        out += [CNT(0) == 0, z3.ForAll([i], z3.Implies(i >= 0, z3.And(CNT(i+1) == CNT(i) + z3.If(m(i), 1, 0), z3.Implies(m(i), AT(CNT(i)) == i))), patterns=[CNT(i+1)])]
        st.ghost["calls"] = z3.IntVal(0)
        return out + (self.pre2(ex, st, args) or [])
    def pre2(self, ex, st, args): return []
    def match(self, i): return PRE(self.key, self.nm[i])
    def untouched(self, ex, old, st):
        b, n, c = self.pairs(ex, st); b0, n0, c0 = self.pairs(ex, old)
        return [("the registry is untouched", And(peq(b, b0), eqt(n, n0), ex.row(st, "i64", b0.r, 0) == self.nm, ex.row(st, "ptr", b0.r, 8) == self.fn))]
    def all(self, f): 
        i = z3.Int("ai"); return z3.ForAll([i], z3.Implies(z3.And(0 <= i, i < self.n), f(i)), patterns=[self.nm[i]])
    def extra_facts(self, ex, st, g, sk):
        return [z3.Implies(z3.And(0 <= s, s < self.n), z3.And(CNT(s+1) == CNT(s) + z3.If(self.match(s), 1, 0), z3.Implies(self.match(s), AT(CNT(s)) == s))) for s in sk if z3.is_int(s)] + [PRE(self.key, self.key)]
    def indirect(self, ex, st, ins, fn, args):
        """a registered factory function: returns its product, touches nothing else"""
        ex.write(st, "ptr", args[0], PtrV(PROD(fn.term()), 0, 0)); ex.assume(st, z3.And(PROD(fn.term()) >= 0, PROD(fn.term()) < lift(st.next)))
        ex.setghost(st, "calls", st.ghost["calls"] + 1); return None
    def invs(self, ex, L, st):
        out = [("registry untouched", self.untouched(ex, ex.pre, st)[0][1])]
        out.append(("calls so far", st.ghost["calls"] == L.entry.ghost["calls"]))
        b = self.pairs(ex, ex.pre)[0]
        cur = []
        for nm, p in phis_of(L, st, "ptr").items():
            out.append((f"{nm} in the registry", And(eqt(p.r, b.r), eqt(p.o, 0), le(0, p.i), le(p.i, self.n)))); cur.append((nm, p.i))
        for nm, v in phis_of(L, st, "i64").items(): out.append((f"{nm} counts the registry", And(le(0, v), le(v, self.n)))); cur.append((nm, v))
        for nm, k in cur:
            k = lift(k); q = z3.Int("iq")
            out.append((f"not found before {nm}", z3.ForAll([q], z3.Implies(z3.And(0 <= q, q < k), self.nm[q] != self.key), patterns=[self.nm[q]])))
            out += self.listing(ex, L, st, nm, k)
        return out
    def listing(self, ex, L, st, nm, k): return []

class Names(NC):
    def pre2(self, ex, st, args):
        v = self.v = args[2]; b, n, c = z3.Ints("out_root out_n out_cap"); ex.write(st, "ptr", v, PtrV(b, 0, 0)); ex.write(st, "i64", v.at(8), n); ex.write(st, "i64", v.at(16), c)
        self.o0 = ex.row(st, "i64", b, 0); self.n0 = n
        return [0 <= n, n <= c, c < 2**56, b >= 0, b < st.next, (b == 0) == (c == 0), z3.Or(b == 0, b != lift(self.pairs(ex, st)[0].r))] + [b != lift(a.r) for a in args]
    def out(self, ex, st):
        b, n, c = VecLib.fields(ex, st, self.v); return b, lift(n), lift(c), ex.row(st, "i64", b.r, 0)
    def listing(self, ex, L, st, nm, k):
        b, n, c, row = self.out(ex, st); q = z3.Int("lq"); n0 = self.n0
        b0 = VecLib.fields(ex, ex.pre, self.v)[0]; R = self.pairs(ex, ex.pre)[0]
        return [(f"list storage at {nm}", And(eqt(b.o, 0), eqt(b.i, 0), 0 <= n, n <= c, Or(eqt(b.r, b0.r), And(le(L.entry.next, b.r), lt(b.r, st.next))), Implies(eqt(b.r, 0), eqt(c, 0)))), (f"list length up to {nm}", z3.And(n == n0 + CNT(k), CNT(k) >= 0, CNT(k) <= k)),
            (f"what was listed before stays ({nm})", z3.ForAll([q], z3.Implies(z3.And(0 <= q, q < n0), row[q] == self.o0[q]), patterns=[row[q]])),
            (f"matches before {nm} are listed", z3.ForAll([q], z3.Implies(z3.And(0 <= q, q < k, self.match(q)), z3.And(0 <= CNT(q), CNT(q) < CNT(k), row[n0+CNT(q)] == self.nm[q])), patterns=[self.nm[q]])),
            (f"only matches before {nm} are listed", z3.ForAll([q], z3.Implies(z3.And(0 <= q, q < CNT(k)), z3.And(0 <= AT(q), AT(q) < k, self.match(AT(q)), CNT(AT(q)) == q)), patterns=[AT(q)])),
            (f"the entry {nm} lists is the match", z3.ForAll([q], z3.Implies(z3.And(n0 <= q, q < n), z3.And(row[q] == self.nm[AT(q-n0)], AT(q-n0) < k, AT(q-n0) >= 0, self.match(AT(q-n0)), CNT(AT(q-n0)) == q-n0)), patterns=[row[q]]))]
    def post(self, ex, old, st, args, ret):
        b, n, c, row = self.out(ex, st); n0 = self.n0; N = self.n; out = self.untouched(ex, old, st); i, j = z3.Ints("pi pj")
        P, Q = ex.perm
        out.append(("one entry more for each match", n == n0 + CNT(N)))
        out.append(("listed are the earlier entries and the matching names", z3.ForAll([j], z3.Implies(z3.And(0 <= j, j < n), z3.And(0 <= P(j), P(j) < n, Q(P(j)) == j, z3.Or(z3.And(P(j) < n0, row[j] == self.o0[P(j)]), z3.And(P(j) >= n0, AT(P(j)-n0) < N, AT(P(j)-n0) >= 0, self.match(AT(P(j)-n0)), row[j] == self.nm[AT(P(j)-n0)], CNT(AT(P(j)-n0)) == P(j)-n0)))))))
        out.append(("every matching name is listed", z3.ForAll([i], z3.Implies(z3.And(0 <= i, i < N, self.match(i)), z3.And(0 <= Q(n0+CNT(i)), Q(n0+CNT(i)) < n, P(Q(n0+CNT(i))) == n0+CNT(i), row[Q(n0+CNT(i))] == self.nm[i])))))
        out.append(("in increasing order", z3.ForAll([i, j], z3.Implies(z3.And(0 <= i, i < j, j < n), rank(row[i]) <= rank(row[j])))))
        return out
    def extra_facts(self, ex, st, g, sk):
        out = NC.extra_facts(self, ex, st, g, sk)
        for s in sk:
            if z3.is_int(s): out += [KEEP(AT(s - self.n0)), KEEP(self.nm[s])]
        return out
def h_sort(ex, st, ins, args):
    """std::sort of strings: sorted permutation"""
    b, e = args; ex.oblige(st, "a range is sorted", And(eqt(b.r, e.r), eqt(b.o, e.o), le(b.i, e.i)))
    nm = fresh("perm", IntS).decl().name(); P = z3.Function(nm, IntS, IntS); Q = z3.Function(nm+"inv", IntS, IntS); i, j = z3.Ints("hi hj")
    old = ex.row(st, "i64", b.r, b.o); row = ex.havoc_row(st, "i64", b.r, b.o); inr = lambda x: z3.And(lift(b.i) <= x, x < lift(e.i))
    ex.assume(st, [z3.ForAll([j], z3.If(inr(j), z3.And(row[j] == old[P(j)], inr(P(j)), Q(P(j)) == j), row[j] == old[j]), patterns=[row[j]]), z3.ForAll([j], z3.Implies(inr(j), z3.And(inr(P(j)), Q(P(j)) == j)), patterns=[P(j)]), z3.ForAll([j], z3.Implies(inr(j), z3.And(inr(Q(j)), P(Q(j)) == j)), patterns=[Q(j)]),
        z3.ForAll([i, j], z3.Implies(z3.And(inr(i), inr(j), i < j), rank(row[i]) <= rank(row[j])), patterns=[z3.MultiPattern(row[i], row[j])])])
    ex.perm = (P, Q)
def h_names(ex, st, ins, args):
    """the contract of namesWithPrefix, proved as d_names, for an empty list"""
    C = ex.contract; f, p, v = args; b, n, c = VecLib.fields(ex, st, v)
    ex.oblige(st, "the list starts empty", eqt(n, 0)); ex.oblige(st, "names of this registry with this prefix", And(peq(f, C.f), lift(ex.read(st, "i64", p)) == C.key))
    r = ex.alloc(st); row = ex.havoc_row(st, "i64", r.r, 0); m = CNT(C.n); i, j = z3.Ints("mi mj")
    P = z3.Function("POS", IntS, IntS); A = z3.Function("SRC", IntS, IntS)
    ex.assume(st, [m >= 0, m <= C.n, z3.ForAll([j], z3.Implies(z3.And(0 <= j, j < m), z3.And(0 <= A(j), A(j) < C.n, C.match(A(j)), row[j] == C.nm[A(j)], P(A(j)) == j)), patterns=[row[j]]),
        z3.ForAll([i], z3.Implies(z3.And(0 <= i, i < C.n, C.match(i)), z3.And(0 <= P(i), P(i) < m, row[P(i)] == C.nm[i])), patterns=[C.nm[i]])])
    cap = fresh("vcap", IntS); ex.assume(st, [cap >= m, cap < 2**60])
    ex.write(st, "ptr", v, r); ex.write(st, "i64", v.at(8), m); ex.write(st, "i64", v.at(16), cap)
    C.A = A; C.list = row
def h_find(ex, st, ins, args):
    b, e, x = args; t = lift(ex.read(st, "i64", x)); row = ex.row(st, "i64", b.r, b.o); k = fresh("found", IntS); j = z3.Int("fj")
    ex.oblige(st, "a range is searched", And(eqt(b.r, e.r), eqt(b.o, e.o), le(b.i, e.i)))
    ex.assume(st, [lift(b.i) <= k, k <= lift(e.i), z3.Implies(k < lift(e.i), row[k] == t), z3.ForAll([j], z3.Implies(z3.And(lift(b.i) <= j, j < k), row[j] != t), patterns=[row[j]])])
    ex.contract.foundk = k; return PtrV(b.r, b.o, k)
class Unique(NC):
    A = z3.Function("SRC", IntS, IntS); foundk = z3.IntVal(0)
    def invs(self, ex, L, st):
        out = [("registry untouched", self.untouched(ex, ex.pre, st)[0][1])]
        return out
    def post(self, ex, old, st, args, ret):
        r = lift(ex.read(st, "i64", args[2])); A, k = self.A, lift(self.foundk)
        return self.untouched(ex, old, st) + [("a registered name resolves to itself", self.all(lambda i: z3.Implies(self.nm[i] == self.key, r == self.key))),
            ("the result is a registered name with the prefix", z3.Or(*[z3.And(0 <= A(x), A(x) < self.n, self.nm[A(x)] == r, self.match(A(x))) for x in (z3.IntVal(0), k)])),
            ("an abbreviation resolves to the only name with the prefix", z3.Implies(r != self.key, self.all(lambda i: z3.Implies(self.match(i), self.nm[i] == r))))]
    def on_throw(self, ex, old, st, args, what):
        A = self.A
        if "UnknownName" in what: return self.untouched(ex, old, st) + [("unknown: no registered name has the prefix", self.all(lambda i: z3.Not(self.match(i))))]
        if "AmbiguousName" in what: return self.untouched(ex, old, st) + [("ambiguous: the prefix is no registered name", self.all(lambda i: self.nm[i] != self.key)), ("ambiguous: two registered names have the prefix", z3.And(*[z3.And(0 <= A(x), A(x) < self.n, self.match(A(x))) for x in (0, 1)], A(0) != A(1), self.nm[A(0)] != self.nm[A(1)]))]
        return [("the error is one of the two documented", False)]
    def extra_facts(self, ex, st, g, sk):
        row = getattr(self, "list", None); out = NC.extra_facts(self, ex, st, g, sk)
        if row is not None: out += [KEEP(row[x]) for x in (z3.IntVal(0), z3.IntVal(1), lift(self.foundk))] + [PRE(self.nm[s], self.nm[s]) for s in sk if z3.is_int(s)]
        return out
class CreateNull(NC):
    name = None
    def resolved(self): return self.key if self.name is None else self.name
    def post(self, ex, old, st, args, ret):
        r = ex.read(st, "ptr", args[2]); k = self.resolved()
        return self.untouched(ex, old, st) + [("the product registered under the name", self.all(lambda i: z3.Implies(self.nm[i] == k, z3.And(lift(r.r) == PROD(self.fn[i]), st.ghost["calls"] == 1)))),
            ("nothing for an unregistered name", z3.Implies(self.all(lambda i: self.nm[i] != k), z3.And(lift(r.r) == 0, st.ghost["calls"] == 0)))] + self.also(ex, st, r)
    def also(self, ex, st, r): return []
class Create(CreateNull):
    def also(self, ex, st, r): return [("a product is returned", lift(r.r) != 0)]
    def on_throw(self, ex, old, st, args, what):
        return self.untouched(ex, old, st) + [("the error is the unknown-name error", "UnknownName" in what), ("only names without product raise it", self.all(lambda i: z3.Implies(self.nm[i] == self.key, PROD(self.fn[i]) == 0)))]
class CreatePrefix(CreateNull):
    def invs(self, ex, L, st):
        k0, self.key = self.key, self.resolved()
        try: return NC.invs(self, ex, L, st)
        finally: self.key = k0
    def on_throw(self, ex, old, st, args, what): return [("errors are those of the lookup", what == "lookup")]
def h_unique(ex, st, ins, args):
    """the contract of uniqueNameWithPrefix, proved as d_unique; its exceptions pass through"""
    C = ex.contract; out, f, p = args; ex.oblige(st, "the name is looked up in this registry", And(peq(f, C.f), lift(ex.read(st, "i64", p)) == C.key))
    r = fresh("resolved", IntS); text_ok(ex, st, r); C.name = r
    ex.assume(st, [C.all(lambda i: z3.Implies(C.nm[i] == C.key, r == C.key)), z3.Implies(r != C.key, C.all(lambda i: z3.Implies(C.match(i), C.nm[i] == r)))])
    ex.write(st, "i64", out, r)
class Register(NC):
    def post(self, ex, old, st, args, ret):
        nm, fn, n = self.reg(ex, st); j = z3.Int("gj")
        return [("one pair more", n == self.n + 1), ("the new pair is the given one", And(nm[self.n] == self.key, self.newfn(ex, fn[self.n], args))), ("earlier pairs stay", z3.ForAll([j], z3.Implies(z3.And(0 <= j, j < self.n), z3.And(nm[j] == self.nm[j], fn[j] == self.fn[j]))))]
    def newfn(self, ex, t, args): return t == args[2].term()
class RegisterType(Register):
    def newfn(self, ex, t, args):
        n = next((k for k in ex.gconst if isinstance(k, str) and "createConcreteProduct" in k), None)
        return t == PtrV(ex.gconst[n], 0, 0).term() if n else False
class Empty(NC):
    def post(self, ex, old, st, args, ret): return self.untouched(ex, old, st) + [("empty exactly without pairs", lift(ret) == (self.n == 0))]
class Ctor(Contract):
    def post(self, ex, old, st, args, ret): return [("a new registry is empty", eqt(VecLib.fields(ex, st, evalfn(ex, st, "specp_pairs", [args[0]]))[1], 0))]
class MakeConcrete(Contract):
    """the registered function: one new Concrete, default-constructed, handed over"""
    def pre(self, ex, st, args): st.ghost["made"] = z3.IntVal(0); self.last = NULL; return []
    def post(self, ex, old, st, args, ret):
        r = ex.read(st, "ptr", args[0]); return [("a new object is returned", And(eqt(r.r, lift(old.next)), eqt(r.i, 0))), ("default-constructed once", And(st.ghost["made"] == 1, peq(r, self.last)))]
def h_concrete(ex, st, ins, args): ex.contract.last = args[0]; ex.setghost(st, "made", st.ghost["made"] + 1)
def _hs(level):
    V = VecLib({"std::string": [(0, "i64")], PT: [(0, "i64"), (8, "ptr")]})
    hs = STRS + V.handlers()[:3] + NEWDEL + [(r"^void std::sort<", h_sort), (r"std::find<|^std::string const\* std::find<", h_find), (r"^Concrete::Concrete\(", h_concrete)]
    if level > 0: hs.append((r"NameFactory<.*>::namesWithPrefix\(", h_names))
    if level > 1: hs.append((r"mathic::uniqueNameWithPrefix<", h_unique))
    return Unit("names.cpp", hs, keep=[r"createConcreteProduct"])
def u_names(): return _hs(0)
def u_unique(): return _hs(1)
def u_mod(): return _hs(2)
def concrete(u): return next(n for n in u.module.fns if "createConcreteProduct" in n)
JOBS = [("names", u_names, "d_names", Names), ("names lookup", u_unique, "d_unique", Unique), ("names modular", u_mod, "d_create_null", CreateNull), ("names modular", u_mod, "d_create", Create), ("names modular", u_mod, "d_create_prefix", CreatePrefix),
        ("names modular", u_mod, "d_register", Register), ("names modular", u_mod, "d_register_type", RegisterType), ("names modular", u_mod, "d_empty", Empty), ("names modular", u_mod, "d_ctor", Ctor), ("names modular", u_mod, concrete, MakeConcrete)]
