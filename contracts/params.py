"""Contracts for the command-line parameters (C03)."""
from .strs import *
from vcg.unit import Unit

class PC(Contract):
    kind = "int"
    K = {"int": "i32", "bool": "i8", "str": "i64"}
    def val(self, ex, st, p): return lift(ex.read(st, self.K[self.kind], evalfn(ex, st, "specp_" + self.kind, [p])))
    def name(self, ex, st, p): return lift(ex.read(st, "i64", evalfn(ex, st, "specp_name", [p])))
    def desc(self, ex, st, p): return lift(ex.read(st, "i64", evalfn(ex, st, "specp_desc", [p])))
    def txt(self, ex, st, p): return lift(ex.read(st, "i64", p))
    def pre(self, ex, st, args):
        out = [lift(a.r) != lift(b.r) for i, a in enumerate(args) for b in args[:i] if isinstance(a, PtrV) and isinstance(b, PtrV)]
        if self.kind == "bool": out += [self.val(ex, st, a) <= 1 for a in args[:1] + (args[1:] if isinstance(self, Round) else []) if isinstance(a, PtrV)]
        return out
    def numeral(self, s):
        u = z3.Int("nu"); return z3.Exists([u], z3.And(0 <= u, u < 2**32, UNUM(u) == s))
    def same_names(self, ex, old, st, p): return [("name and description are kept", And(self.name(ex, st, p) == self.name(ex, old, p), self.desc(ex, st, p) == self.desc(ex, old, p)))]
class Process(PC):
    def post(self, ex, old, st, args, ret):
        a = self.txt(ex, old, args[1]); v, v0 = self.val(ex, st, args[0]), self.val(ex, old, args[0]); nm = self.same_names(ex, old, st, args[0])
        if self.kind == "int": return nm + [("an accepted text is the numeral of the value then held", UNUM(v) == a), ("the value is in range", And(0 <= v, v < 2**32))]
        if self.kind == "bool": return nm + [("accepted texts are empty, on and off", Or(a == 0, a == lit("on"), a == lit("off"))), ("on for empty or on, off for off", v == z3.If(a == lit("off"), 0, 1))]
        return nm + [("the argument is held unchanged", v == a)]
    def on_throw(self, ex, old, st, args, what):
        a = self.txt(ex, old, args[1]); v, v0 = self.val(ex, st, args[0]), self.val(ex, old, args[0])
        out = [("the error is the library's exception", "MathicException" in what)] + self.same_names(ex, old, st, args[0])
        if self.kind == "int":
            u = z3.Int("ru"); return out + [("no numeral of the range is rejected", z3.ForAll([u], z3.Implies(z3.And(0 <= u, u < 2**32), UNUM(u) != a), patterns=[UNUM(u)]))]
        if self.kind == "bool": return out + [("only other texts are rejected", And(a != 0, a != lit("on"), a != lit("off"))), ("a rejected text leaves the value alone", v == v0)]
        return [("a text is never rejected", False)]
class Text(PC):
    def post(self, ex, old, st, args, ret):
        t = self.txt(ex, st, args[1]); v, v0 = self.val(ex, st, args[0]), self.val(ex, old, args[0])
        want = UNUM(v0) if self.kind == "int" else z3.If(v0 == 1, lift(lit("on")), lift(lit("off"))) if self.kind == "bool" else v0
        return [("the text of the value", t == want), ("the value is untouched", v == v0)] + self.same_names(ex, old, st, args[0])
class Round(PC):
    def post(self, ex, old, st, args, ret): return [("the textual value reproduces the value", self.val(ex, st, args[1]) == self.val(ex, old, args[0])), ("the source is untouched", self.val(ex, st, args[0]) == self.val(ex, old, args[0]))]
    def on_throw(self, ex, old, st, args, what): return [("the textual value of a parameter is accepted", False)]
class Value(PC):
    def post(self, ex, old, st, args, ret):
        v0 = self.val(ex, old, args[0]); r = self.txt(ex, st, ret) if self.kind == "str" else (z3.If(ret, 1, 0) if self.kind == "bool" else lift(ret))
        return [("the value held is returned", r == v0), ("the value is untouched", self.val(ex, st, args[0]) == v0)]
class Eq(PC):
    def post(self, ex, old, st, args, ret): return [("equality compares the value held", lift(ret) == (self.val(ex, old, args[0]) == self.txt(ex, old, args[1])))]
class Set(PC):
    def arg(self, ex, st, a): return self.txt(ex, st, a) if self.kind == "str" else z3.If(a, 1, 0) if self.kind == "bool" else lift(a)
    def post(self, ex, old, st, args, ret): return [("the given value is held", self.val(ex, st, args[0]) == self.arg(ex, old, args[1]))] + self.same_names(ex, old, st, args[0])
class Ctor(Set):
    def post(self, ex, old, st, args, ret): return [("the default value is held", self.val(ex, st, args[0]) == self.arg(ex, old, args[3])), ("the name is held", self.name(ex, st, args[0]) == self.txt(ex, old, args[1])), ("the description is held", self.desc(ex, st, args[0]) == self.txt(ex, old, args[2]))]
def unit(): return Unit("params.cpp", STRS)
def of(cls, k): return type(cls.__name__, (cls,), {"kind": k})
JOBS = [(f"d_{k}_{f}", of(c, k)) for k in ("int", "bool", "str") for f, c in (("process", Process), ("text", Text), ("round", Round), ("value", Value), ("conv", Value), ("set", Set), ("assign", Set), ("ctor", Ctor)) if not (k == "str" and f == "conv")] + [("d_str_eq", of(Eq, "str"))]
