"""Contracts for BitTriangle (T02)."""
from .spec import *
from .vec import *
from vcg.unit import Unit

class View:
    def __init__(self, ex, st, t):
        self.p = evalfn(ex, st, "spec_cols", [t])
        self.b, self.n, self.c = VecLib.fields(ex, st, self.p)
        self.B = ex.row(st, "ptr", self.b.r, 0); self.N = ex.row(st, "i64", self.b.r, 8); self.C = ex.row(st, "i64", self.b.r, 16)
        self.m8 = ex.memterm(st, "i8")
    def root(self, c): return PtrD.pr(self.B[c])
    def bit(self, c, r): return z3.Select(z3.Select(self.m8, Blk.mkblk(self.root(c), z3.IntVal(0))), r) % 2
    def inv(self, st):
        n = lift(self.n)
        col = lambda c: z3.Implies(z3.And(0 <= c, c < n), z3.And(self.N[c] == c, self.C[c] >= c, PtrD.po(self.B[c]) == 0, PtrD.pi(self.B[c]) == 0, self.root(c) < lift(st.next), self.root(c) >= 0, z3.Implies(c > 0, self.root(c) > 0)))
        sep = lambda c, d: z3.Implies(z3.And(0 < c, c < d, d < n), self.root(c) != self.root(d))
        val = lambda c, r: z3.Implies(z3.And(0 <= r, r < c, c < n), z3.And(z3.Select(z3.Select(self.m8, Blk.mkblk(self.root(c), z3.IntVal(0))), r) <= 1, z3.Select(z3.Select(self.m8, Blk.mkblk(self.root(c), z3.IntVal(0))), r) >= 0))
        return [("columns are stored contiguously", And(eqt(self.b.o, 0), eqt(self.b.i, 0), le(0, self.n), le(self.n, self.c), lt(self.b.r, st.next), le(0, self.b.r), Implies(lt(0, self.c), lt(0, self.b.r)))),
            ("column c has c cells", forall(1, col)), ("columns do not overlap", forall(2, sep)), ("cells hold 0 or 1", forall(2, val))]
class BC(Contract):
    cells = ()            # argument positions of (column, row)
    def pre(self, ex, st, args):
        self.t = args[0]; v = View(ex, st, self.t); p = v.p
        n, cap, r = z3.Ints("cols cap colroot")
        ex.write(st, "ptr", p, PtrV(r, 0, 0)); ex.write(st, "i64", p.at(8), n); ex.write(st, "i64", p.at(16), cap)
        v = View(ex, st, self.t); out = [f for _, f in v.inv(st)] + [n < 2**56, cap < 2**57, r != lift(self.t.r)]
        # the columns' storage is not the object nor the column table
        out.append(forall(1, lambda c: z3.Implies(z3.And(0 <= c, c < n), z3.And(v.root(c) != r, v.root(c) != lift(self.t.r)))))
        return out + self.pre2(v, args)
    def pre2(self, v, args): return []
    def seeds0(self): return [a for a in self.ex_args if not isinstance(a, (PtrV, bool)) and (is_c(a) or z3.is_int(a))]
    def extra_facts(self, ex, st, g, sk):
        v0 = View(ex, self.prestate(ex), self.t)
        return seeds(*[s for s in sk if z3.is_int(s)], *[a for a in ex.args if not isinstance(a, (PtrV, bool)) and (is_c(a) or z3.is_int(a))], v0.n)
    def prestate(self, ex): return getattr(ex, "pre", None) or self._st
    def bounds(self, ex, st, kind, p, what):
        if kind != "i8": return []
        v = View(ex, st, self.t); c = fresh("col", IntS)
        # some column's cells: the column is named by the index the pointer was read from
        owner = Or(*[And(lift(0) <= lift(k), lift(k) < lift(v.n), lift(p.r) == v.root(lift(k)), eqt(p.o, 0), le(0, p.i), lt(p.i, k)) for k in self.cols(ex, v)])
        return [("cell access inside its column", owner)]
    def cols(self, ex, v): return [a for a in ex.args if not isinstance(a, (PtrV, bool)) and not (z3.is_expr(a) and z3.is_bool(a))] + [sub(v.n, 1)]
    def keep(self, v, vo, except_=None):
        n = lift(vo.n)
        return forall(2, lambda c, r: z3.Implies(z3.And(0 <= r, r < c, c < n), v.bit(c, r) == (vo.bit(c, r) if except_ is None else z3.If(z3.And(c == except_[0], r == except_[1]), except_[2], vo.bit(c, r)))))
    def post(self, ex, old, st, args, ret):
        v, vo = View(ex, st, self.t), View(ex, old, self.t)
        return v.inv(st) + self.post2(ex, v, vo, args, ret)
class Add(BC):
    def post2(self, ex, v, vo, args, ret):
        n = lift(vo.n)
        return [("one more column", eqt(v.n, add(vo.n, 1))), ("existing cells are unchanged", self.keep(v, vo)), ("the new cells are false", forall(1, lambda r: z3.Implies(z3.And(0 <= r, r < n), v.bit(n, r) == 0)))]
class Get(BC):
    un = False
    def pre2(self, v, args):
        x, y = lift(args[1]), lift(args[2])
        return [x < lift(v.n), y < lift(v.n), x != y] if self.un else [y < x, x < lift(v.n)]
    def cr(self, args):
        x, y = lift(args[1]), lift(args[2])
        return (z3.If(x < y, y, x), z3.If(x < y, x, y)) if self.un else (x, y)
    def post2(self, ex, v, vo, args, ret):
        c, r = self.cr(args)
        return [("the cell's value", lift(ret) == (vo.bit(c, r) == 1)), ("nothing changes", And(eqt(v.n, vo.n), self.keep(v, vo)))]
class GetU(Get): un = True
class Set(Get):
    def post2(self, ex, v, vo, args, ret):
        c, r = self.cr(args)
        return [("exactly this cell changes", self.keep(v, vo, (c, r, z3.If(lift(args[3]), 1, 0)))), ("columns unchanged", eqt(v.n, vo.n))]
class SetU(Set): un = True
class Count(BC):
    def post2(self, ex, v, vo, args, ret): return [("number of columns", eqt(ret, vo.n)), ("nothing changes", And(eqt(v.n, vo.n), self.keep(v, vo)))]
class Empty(BC):
    def post2(self, ex, v, vo, args, ret): return [("empty exactly without columns", lift(ret) == (lift(vo.n) == 0)), ("nothing changes", And(eqt(v.n, vo.n), self.keep(v, vo)))]
class Ctor(BC):
    def pre(self, ex, st, args): self.t = args[0]; return []
    def post2(self, ex, v, vo, args, ret): return [("starts without columns", eqt(v.n, 0))]
def unit():
    return Unit("bits.cpp", VecLib({"bool": [(0, "i8")], "std::vector<bool>": VEC}).handlers())
JOBS = [("d_addColumn", Add), ("d_bit", Get), ("d_setBit", Set), ("d_bitUnordered", GetU), ("d_setBitUnordered", SetU), ("d_columnCount", Count), ("d_empty", Empty), ("d_ctor", Ctor)]
