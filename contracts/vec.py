"""Assumed contracts of the std::vector members that the stub only declares (growth, fill, copy)."""
from .spec import *

class VecLib:
    """types: element type as demangled -> leaves [(offset, memory kind)] of one element"""
    def __init__(self, types): self.types = types
    def leaves(self, ex, ins):
        d = ex.u.demangle(ins.extra["callee"][1])
        m = re.search(r"std::vector<(.*)>::vp_\w+\(", d)
        t = m.group(1).strip() if m else d
        if t not in self.types: raise Unsupported("vector of " + t)
        return self.types[t]
    @staticmethod
    def fields(ex, st, p):
        b = ex.read(st, "ptr", p); n = ex.read(st, "i64", p.at(8)); c = ex.read(st, "i64", p.at(16)); return b, n, c
    def grow(self, ex, st, ins, args):
        p, least = args
        b, n, c = self.fields(ex, st, p); lv = self.leaves(ex, ins)
        ex.oblige(st, "a vector is grown while its fields are those of its storage", And(eqt(b.o, 0), eqt(b.i, 0), le(n, c)))
        q = ex.alloc(st); cap = fresh("vcap", IntS)
        ex.assume(st, [cap >= lift(least), cap > lift(c), cap < 2**60])
        for off, kind in lv:
            old = ex.row(st, kind, b.r, off); row = ex.havoc_row(st, kind, q.r, off)
            ex.assume(st, z3.ForAll([J], z3.Implies(z3.And(0 <= J, J < lift(n)), row[J] == old[J]), patterns=[row[J]]))
            if kind == "i64": ex.assume(st, total(row, 0, n) == total(old, 0, n))     # equal entries have equal totals
        h_del_live(ex, st, ins, [b]); live_new(ex, st, q)
        ex.write(st, "ptr", p, q); ex.write(st, "i64", p.at(16), cap)
    def fill(self, ex, st, ins, args):
        p, lo, hi = args[0], args[1], args[2]
        b, n, c = self.fields(ex, st, p); lv = self.leaves(ex, ins)
        ex.oblige(st, "filling stays inside the storage", And(le(lo, hi), le(hi, c)))
        for off, kind in lv:
            old = ex.row(st, kind, b.r, off); row = ex.havoc_row(st, kind, b.r, off)
            zero = NULL.term() if kind == "ptr" else z3.IntVal(0)
            if len(args) > 3: zero = enc(ex.read(st, kind, args[3].at(off)), kind)
            ex.assume(st, z3.ForAll([J], row[J] == z3.If(z3.And(lift(lo) <= J, J < lift(hi)), zero, old[J]), patterns=[row[J]]))
    def init_copy(self, ex, st, ins, args):
        p, s = args
        b, n, c = self.fields(ex, st, s); lv = self.leaves(ex, ins)
        q = ex.alloc(st); cap = fresh("vcap", IntS); ex.assume(st, [cap >= lift(n), cap < 2**60])
        for off, kind in lv:
            old = ex.row(st, kind, b.r, off); row = ex.havoc_row(st, kind, q.r, off)
            ex.assume(st, z3.ForAll([J], z3.Implies(z3.And(0 <= J, J < lift(n)), row[J] == old[J]), patterns=[row[J]]))
            if kind == "i64": ex.assume(st, total(row, 0, n) == total(old, 0, n))
        ex.write(st, "ptr", p, q); ex.write(st, "i64", p.at(8), n); ex.write(st, "i64", p.at(16), cap)
    def sort(self, ex, st, ins, args):
        """the range becomes a permutation of itself (its order is not used here)"""
        b, e = args[0], args[1]; m = re.search(r"std::sort<(.*?)\*[,>]", ex.u.demangle(ins.extra["callee"][1])); t = m.group(1).strip()
        if t not in self.types: raise Unsupported("sort of " + t)
        ex.oblige(st, "a range is sorted", And(eqt(b.r, e.r), eqt(b.o, e.o), le(b.i, e.i)))
        P = z3.Function(fresh("perm", IntS).decl().name(), IntS, IntS)
        for off, kind in self.types[t]:
            old = ex.row(st, kind, b.r, add(b.o, off)); row = ex.havoc_row(st, kind, b.r, add(b.o, off))
            ex.assume(st, z3.ForAll([J], z3.And(z3.Implies(z3.And(lift(b.i) <= J, J < lift(e.i)), z3.And(row[J] == old[P(J)], lift(b.i) <= P(J), P(J) < lift(e.i))), z3.Implies(z3.Not(z3.And(lift(b.i) <= J, J < lift(e.i))), row[J] == old[J])), patterns=[row[J]]))
        ex.perm = P
    def handlers(self):
        return [(r"std::vector<.*>::vp_grow\(", self.grow), (r"std::vector<.*>::vp_fillv?\(", self.fill), (r"std::vector<.*>::vp_init_copy\(", self.init_copy), (r"^void std::sort<", self.sort)]
J = z3.Int("vj")
import re
VEC = [(0, "ptr"), (8, "i64"), (16, "i64")]
