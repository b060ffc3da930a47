"""Contracts for DivMask (D01)."""
from .spec import *
from .vec import *
from vcg.unit import Unit
import vcg.exec as X

expo = z3.Function("expo", IntS, IntS, IntS)      # exponent of a variable in an entry, as stored in the exponent type
dv = z3.Function("divides", IntS, IntS, B)
varcount = z3.Int("varcount")
M = z3.Function("maskof", IntS, IntS, IntS)       # M(t, k): mask of the first k bits for entry t; its definition is mstep
bitand = z3.Function("bitand32", IntS, IntS, IntS)
TOP = (1 << 32) - 1
def admits(a, b): return bitand(lift(a), TOP - lift(b)) == 0          # a has no bit that b lacks

class Bits:
    def __init__(self, ex, st, k):
        self.p = evalfn(ex, st, "spec_bits", [k]); self.b, self.n, self.c = VecLib.fields(ex, st, self.p)
        self.var = ex.row(st, "i64", self.b.r, 0); self.W = ex.u.ebits; self.sg = ex.u.esigned
        self.thr = ex.row(st, f"i{self.W}", self.b.r, 8)
    def num(self, x): return z3.If(x >= (1 << (self.W-1)), x - (1 << self.W), x) if self.sg else x
    def gt(self, t, j): return self.num(expo(lift(t), self.var[j])) > self.num(self.thr[j])
    def mzero(self, t): return M(lift(t), 0) == 0
    def mstep(self, t, j):
        t, j = lift(t), lift(j)
        return z3.Implies(j >= 0, M(t, j+1) == (2*M(t, j)) % (1 << 32) + z3.If(self.gt(t, j), 1, 0))
def setup_bits(ex, st, k):
    p = evalfn(ex, st, "spec_bits", [k]); n, cap, r = z3.Ints("nbits bitcap bitroot")
    ex.write(st, "ptr", p, PtrV(r, 0, 0)); ex.write(st, "i64", p.at(8), n); ex.write(st, "i64", p.at(16), cap)
    return [0 <= n, n <= cap, cap < 2**56, r >= 0, r < st.next, r != lift(k.r), z3.Implies(cap > 0, r > 0)]

class Compute(Contract):
    kpos, tpos = 0, 1
    def entry(self, ex, st): return ex.read(st, "i64", ex.args[self.tpos])
    def pre(self, ex, st, args):
        self.ar = args
        out = setup_bits(ex, st, args[self.kpos]); self.t = self.entry0(ex, st)
        for a in args:
            if isinstance(a, PtrV) and a is not args[self.kpos]: out.append(lift(a.r) != lift(args[self.kpos].r)); out.append(z3.Int("bitroot") != lift(a.r))
        return out + [Bits(ex, st, args[self.kpos]).mzero(self.t)]
    def entry0(self, ex, st): return ex.read(st, "i64", self.ar[self.tpos])
    def extra_facts(self, ex, st, g, sk):
        b = Bits(ex, st, self.ar[self.kpos]); out = []
        for nm, v in list(st.env.items()) + [(None, x) for x in getattr(self, "hdrs", [])]:
            i = v.i if isinstance(v, PtrV) else v if not isinstance(v, (bool, list)) and (is_c(v) or (z3.is_expr(v) and z3.is_int(v))) else None
            if i is not None and (nm is None or nm in self.pn(ex)): out.append(b.mstep(self.t, i))
        return out + [b.mzero(self.t)]
    def pn(self, ex): return {i.res for bl in ex.f.order for i in ex.f.blocks[bl] if i.op == "phi"}
    def invs(self, ex, L, st):
        b = Bits(ex, st, self.ar[self.kpos]); out = []
        self.hdrs = list(L.hdr.values())
        idx = {}
        for nm, v in phis_of(L, st, "ptr").items():
            out.append((f"{nm} within the bits", And(eqt(v.r, b.b.r), eqt(v.o, 0), le(0, v.i), le(v.i, b.n)))); idx[nm] = v.i
        for nm, v in phis_of(L, st, "i64").items(): out.append((f"{nm} within the bits", And(le(0, v), le(v, b.n)))); idx[nm] = v
        for x, m in phis_of(L, st, "i32").items():
            for nm, i in idx.items(): out.append((f"{x} is the mask of the first {nm} bits", lift(m) == M(lift(self.t), lift(i))))
        return out
    def post(self, ex, old, st, args, ret):
        b = Bits(ex, old, args[self.kpos]); return [("the mask has bit i exactly when the exponent exceeds threshold i", lift(ret) == M(lift(self.t), lift(b.n)))]
class Recalc(Compute):
    kpos, tpos = 1, 2
    def post(self, ex, old, st, args, ret):
        return Compute.post(self, ex, old, st, args, ret) + [("the mask is stored", lift(ex.read(st, "i32", evalfn(ex, st, "spec_mask", [args[0]]))) == lift(ret))]
class ExtC(Compute):
    kpos, tpos = 2, 1
    def post(self, ex, old, st, args, ret):
        e = args[0]; m = ex.read(st, "i32", evalfn(ex, st, "spec_emask", [e]))
        return Compute.post(self, ex, old, st, args, m) + [("the entry is kept", lift(ex.read(st, "i64", evalfn(ex, st, "spec_entry", [e]))) == lift(self.t))]
class ExtR(Compute):
    kpos, tpos = 1, 0
    def entry0(self, ex, st): return ex.read(st, "i64", evalfn(ex, st, "spec_entry", [self.ar[0]]))
    post = ExtC.post
class CanDivide(Contract):
    sp = "spec_mask"
    def m(self, ex, st, k): return ex.read(st, "i32", evalfn(ex, st, self.sp, [self.ar[k]]))
    def pre(self, ex, st, args): self.ar = args; return []
    def post(self, ex, old, st, args, ret):
        a, b = self.m(ex, old, 0), self.m(ex, old, 1)
        return [("rules out exactly when a bit is missing", lift(ret) == admits(a, b))]
class Divides(CanDivide):
    """both masks computed by one calculator; the masking lemma (below) supplies the implication"""
    sp = "spec_emask"
    def ent(self, ex, st, k): return ex.read(st, "i64", evalfn(ex, st, "spec_entry", [self.ar[k]]))
    def pre(self, ex, st, args):
        self.ar = args; a, b = self.m(ex, st, 0), self.m(ex, st, 1); n = z3.Int("nbits"); x, y = self.ent(ex, st, 0), self.ent(ex, st, 1)
        return [lift(a) == M(lift(x), n), lift(b) == M(lift(y), n), z3.Implies(dv(lift(x), lift(y)), admits(M(lift(x), n), M(lift(y), n)))]
    def post(self, ex, old, st, args, ret): return [("the masked test is the divisibility test", lift(ret) == dv(lift(self.ent(ex, old, 0)), lift(self.ent(ex, old, 1))))]
class Combine(CanDivide):
    def post(self, ex, old, st, args, ret):
        a, b, c = self.m(ex, old, 0), self.m(ex, old, 1), self.m(ex, st, 0)
        x = z3.Int("anymask"); ex.assume(st, [x >= 0, x <= TOP, lift(a) >= 0, lift(b) >= 0, lift(a) <= TOP, lift(b) <= TOP])
        return [("the intersection admits whatever either mask admits", And(z3.Implies(admits(a, x), admits(c, x)), z3.Implies(admits(b, x), admits(c, x)))), ("bits common to both stay", z3.Implies(And(admits(x, a), admits(x, b)), admits(x, c))), ("the other mask stays", Or(peq(self.ar[0], self.ar[1]), eqt(self.m(ex, st, 1), b)))]
class Lower(Combine): sp = "spec_emask"
class Max(Contract):
    def post(self, ex, old, st, args, ret): return [("all bits are set", lift(ret) == TOP)]
class Reset(CanDivide):
    sp = "spec_emask"
    def post(self, ex, old, st, args, ret): return [("all bits are set", lift(self.m(ex, st, 0)) == TOP)]
class MaskLemma:
    """if every exponent of a is at most that of b, the mask of a has no bit that of b lacks: induction over the bits"""
    lemma = True
    def prove(self, u):
        out = []
        x, y = z3.BitVecs("x y", 32); ga, gb = z3.Bools("ga gb"); bit = lambda g: z3.If(g, z3.BitVecVal(1, 32), z3.BitVecVal(0, 32))
        step = lambda m, g: 2*m + bit(g)
        for nm, g in (("base: the empty masks", z3.BitVecVal(0, 32) & ~z3.BitVecVal(0, 32) == 0), ("step: one more bit keeps the relation", z3.Implies(z3.And(x & ~y == 0, z3.Implies(ga, gb)), step(x, ga) & ~step(y, gb) == 0)),
                ("complement in arithmetic: ~y is 2^32-1-y", ~y == z3.BitVecVal(TOP, 32) - y)):
            r = X.prove([], g, 20); out.append(X.Obl("mask lemma, " + nm, r[0] == "ok", "z3 bit-vectors" if r[0] == "ok" else r[0], 0, str(r)))
        ea, eb, th = z3.Ints("ea eb th"); r = X.prove([], z3.Implies(z3.And(ea <= eb, ea > th), eb > th), 5)
        out.append(X.Obl("mask lemma, step: a larger exponent exceeds every threshold the smaller one does", r[0] == "ok", r[1] if r[0] == "ok" else r[0], 0, str(r)))
        return out

def h_expo(ex, st, ins, args):
    e, v = ex.read(st, "i64", args[1]), args[2]
    ex.oblige(st, "exponents are asked for existing variables", lift(v) < varcount) if getattr(ex.u, "checkvar", False) else None
    t = expo(lift(e), lift(v)); ex.assume(st, z3.And(t >= 0, t < (1 << ex.u.ebits))); return t
def h_varcount(ex, st, ins, args): ex.assume(st, z3.And(varcount >= 0, varcount < 2**32)); return varcount
def h_divides(ex, st, ins, args): return dv(lift(ex.read(st, "i64", args[1])), lift(ex.read(st, "i64", args[2])))

class Rebuild(Contract):
    """any rebuild leaves bits that refer to existing variables only (the masking lemma needs nothing else)"""
    def pre(self, ex, st, args):
        self.ar = args; out = setup_bits(ex, st, args[0]); n = z3.Int("rangelen")
        if len(args) == 4:
            b, e = args[1], args[2]; e.r, e.o, e.i = b.r, b.o, n; st.env[ex.f.params[2][1]] = e; self.b = b
            out += [n >= 0, n < 2**56, lift(b.r) != lift(args[0].r), z3.Int("bitroot") != lift(b.r), lift(args[3].r) != lift(args[0].r)]
        return out + [lift(args[-1].r) != lift(args[0].r)]
    def vecs(self, ex, st):
        out = [("bits", evalfn(ex, st, "spec_bits", [self.ar[0]]))]
        for b in ex.f.order:
            for i in ex.f.blocks[b]:
                if i.op == "alloca" and i.ty.k == "named" and "class.std::vector" in i.ty.a and i.res in st.env: out.append((i.res, st.env[i.res]))
        return out
    def good(self, ex, st, p):
        b, n, c = VecLib.fields(ex, st, p); row = ex.row(st, "i64", b.r, 0)
        return b, n, c, forall(1, lambda j: z3.Implies(z3.And(0 <= j, j < lift(n)), z3.And(0 <= row[j], row[j] < varcount)))
    def extra_facts(self, ex, st, g, sk):
        s = list(sk)
        for nm, v in st.env.items():
            if nm in self.pn(ex) and not isinstance(v, (bool, PtrV, list)) and (is_c(v) or z3.is_int(v)): s.append(v)
        return seeds(*[x for x in s if is_c(x) or z3.is_int(x)])
    def pn(self, ex): return {i.res for bl in ex.f.order for i in ex.f.blocks[bl] if i.op == "phi" and repr(i.ty) == "i64"}
    def invs(self, ex, L, st):
        out = []; vs = []
        for nm, p in self.vecs(ex, st):
            try: b, n, c, f = self.good(ex, st, p); bE, nE, cE, fE = self.good(ex, L.entry, p)
            except Unsupported: continue
            vs.append((nm, n))
            out.append((f"{nm}: contiguous", And(eqt(b.o, 0), eqt(b.i, 0), le(0, n), le(n, c), lt(c, 2**61))))
            out.append((f"{nm}: storage kept or newer", Or(eqt(b.r, bE.r), le(L.entry.next, b.r))))
            out.append((f"{nm}: storage allocated", And(le(0, b.r), lt(b.r, st.next), Or(eqt(b.r, 0), Not(eqt(b.r, self.ar[0].r))))))
            row = ex.row(st, "i64", b.r, 0)
            if nm != "bits": out.append((f"{nm}: entries at most 64", forall(1, lambda j, row=row, n=n: z3.Implies(z3.And(0 <= j, j < lift(n)), z3.And(0 <= row[j], row[j] <= 64)))))
            out.append((f"{nm}: variables exist", f)); out.append((f"{nm}: size kept", eqt(n, nE)))
            for x, v in phis_of(L, st, "i64").items(): out.append((f"{nm}: size is {x}", eqt(n, v)))
        rs = [ex.read(st, "ptr", p).r for nm, p in self.vecs(ex, st)]
        for i in range(len(rs)):
            for j in range(i): out.append((f"vectors {i} and {j} do not share storage", Or(eqt(rs[i], 0), Not(eqt(rs[i], rs[j])))))
        if len(self.ar) == 4:
            for nm, v in phis_of(L, st, "ptr").items(): out.append((f"{nm} in the range", And(eqt(v.r, self.b.r), eqt(v.o, 0), le(0, v.i), le(v.i, z3.Int("rangelen")))))
        for x, v in phis_of(L, st, "i64").items(): out.append((f"{x} at most the variables", le(v, varcount)))
        return out
    def post(self, ex, old, st, args, ret):
        b, n, c, f = self.good(ex, st, evalfn(ex, st, "spec_bits", [args[0]]))
        return [("the bits are stored contiguously", And(eqt(b.o, 0), eqt(b.i, 0), le(0, n), le(n, c))), ("every bit refers to an existing variable", f)]

def unit(et="int", bits=32, signed=True):
    pr = f"std::pair<unsigned long, {et}>"
    vl = VecLib({pr: [(0, "i64"), (8, f"i{bits}")], "unsigned long": [(0, "i64")], "mathic::DivMask::VarData": [(0, "i64"), (8, "i64"), (16, "i64")]})
    u = Unit("mask.cpp", [(r"Conf::getExponent\(", h_expo), (r"Conf::getVarCount\(", h_varcount), (r"Conf::divides\(", h_divides)] + vl.handlers(), defines=[f"EXP={et.replace(' ', chr(32))}"])
    u.ebits, u.esigned = bits, signed; return u
JOBS = [("d_compute", Compute), ("d_construct", Compute), ("d_recalculate", Recalc), ("d_canDivide", CanDivide), ("d_combineAnd", Combine), ("d_max", Max), ("d_ext", ExtC), ("d_recalcExt", ExtR), ("d_divides", Divides), ("d_reset", Reset), ("d_lower", Lower), ("d_default", Rebuild), ("d_rebuild", Rebuild)]
