"""Symbolic values, memory and the cut-point executor (VC generator).

Pointers are triples (root, off, idx): the root names an allocation (or an object handed
in), off the byte offset of a field inside one element, idx the element number.  Memory is
one map per scalar kind from (root, off) to a row (idx -> value), so an array of structs is
a struct of arrays.  iN values are mathematical integers in [0, 2^N), with wrap-around
modelled exactly."""
import math
import z3, time, sys, os
from . import ir
from .ir import Unsupported

IntS = z3.IntSort()
_multi_pattern = z3.MultiPattern
def MultiPattern(*a): r = _multi_pattern(*a); return r       # z3py drops its references to the terms too early; a keeps them here
z3.MultiPattern = MultiPattern
Blk = z3.Datatype("Blk"); Blk.declare("mkblk", ("root", IntS), ("off", IntS)); Blk = Blk.create()
PtrD = z3.Datatype("Ptr"); PtrD.declare("mkptr", ("pr", IntS), ("po", IntS), ("pi", IntS)); PtrD = PtrD.create()
FpS = z3.DeclareSort("Fp")
ROWI = z3.ArraySort(IntS, IntS); ROWP = z3.ArraySort(IntS, PtrD); ROWF = z3.ArraySort(IntS, FpS)
def valsort(kind): return PtrD if kind == "ptr" else FpS if kind.startswith("fp") else IntS
def rowsort(kind): return z3.ArraySort(IntS, valsort(kind))
def memsort(kind): return z3.ArraySort(Blk, rowsort(kind))

_ctr = [0]
def fresh(base, sort):
    _ctr[0] += 1
    return z3.Const(f"{base}!{_ctr[0]}", sort)
def reset_names(): _ctr[0] = 0

def is_c(x): return isinstance(x, int)
def lift(x): return z3.IntVal(x) if isinstance(x, int) and not isinstance(x, bool) else z3.BoolVal(x) if isinstance(x, bool) else x
def norm(x):
    if z3.is_int_value(x): return x.as_long()
    return x
def norm_deep(x):
    if is_c(x): return x
    return norm(z3.simplify(x))

def add(a, b):
    if is_c(a) and is_c(b): return a+b
    if is_c(a) and a == 0: return b
    if is_c(b) and b == 0: return a
    if is_c(b) or is_c(a):
        # fold (x + c1) + c2
        x, c = (a, b) if is_c(b) else (b, a)
        if z3.is_app_of(x, z3.Z3_OP_ADD) and x.num_args() == 2:
            l, r = x.arg(0), x.arg(1)
            if z3.is_int_value(r): 
                k = r.as_long() + c
                return l if k == 0 else l + k
        return x + c
    return a + b
def sub(a, b):
    if is_c(b): return add(a, -b)
    if not is_c(a) and a.eq(b): return 0
    if is_c(a): return a - b
    # (x+c)-x
    if z3.is_app_of(a, z3.Z3_OP_ADD) and a.num_args()==2 and a.arg(0).eq(b): return norm(a.arg(1))
    return a - b
def mul(a, b):
    if is_c(a) and is_c(b): return a*b
    if is_c(a): a, b = b, a
    if is_c(b):
        if b == 0: return 0
        if b == 1: return a
    return a*b
def lin(a):
    """a = sum of coefficient * term + constant"""
    if is_c(a): return [], int(a)
    if z3.is_int_value(a): return [], a.as_long()
    if z3.is_app_of(a, z3.Z3_OP_ADD):
        ts, k = [], 0
        for x in a.children(): t, m = lin(x); ts += t; k += m
        return ts, k
    if z3.is_app_of(a, z3.Z3_OP_SUB) and a.num_args() == 2:
        t, m = lin(a.arg(0)); t2, m2 = lin(a.arg(1)); return t + [(-c, x) for c, x in t2], m - m2
    if z3.is_app_of(a, z3.Z3_OP_MUL) and a.num_args() == 2:
        for k in (0, 1):
            if z3.is_int_value(a.arg(k)): c = a.arg(k).as_long(); t, m = lin(a.arg(1-k)); return [(c*d, x) for d, x in t], c*m
    return [(1, a)], 0
def unlin(ts, k):
    r = k
    for c, x in ts: r = add(mul(x, c), r)
    return r
def idiv(a, c):
    """floor division by a positive constant"""
    if is_c(a) and is_c(c): return a // c
    if is_c(c) and c == 1: return a
    if is_c(c) and not is_c(a) and c > 0:
        ts, k = lin(a); g = 0
        for d, _ in ts: g = math.gcd(g, d)
        if g and g % c == 0: return unlin([(d // c, x) for d, x in ts], k // c)
        if g > 1 and c % g == 0: return lift(unlin([(d // g, x) for d, x in ts], k // g)) / lift(c // g)
    return lift(a) / lift(c)
def imod(a, c):
    if is_c(a) and is_c(c): return a % c
    if is_c(c) and c == 1: return 0
    if is_c(c) and not is_c(a) and c > 0:
        ts, k = lin(a)
        if all(d % c == 0 for d, _ in ts): return k % c
    return lift(a) % lift(c)
def eqt(a, b):
    if is_c(a) and is_c(b): return a == b
    return lift(a) == lift(b)
def And(*xs):
    ys = []
    for x in xs:
        if isinstance(x, (list, tuple)): x = And(*x)
        if x is True: continue
        if x is False: return False
        ys.append(x)
    if not ys: return True
    return ys[0] if len(ys) == 1 else z3.And(*ys)
def Or(*xs):
    ys = []
    for x in xs:
        if isinstance(x, (list, tuple)): x = Or(*x)
        if x is False: continue
        if x is True: return True
        ys.append(x)
    if not ys: return False
    return ys[0] if len(ys) == 1 else z3.Or(*ys)
def Not(x):
    if x is True: return False
    if x is False: return True
    if z3.is_not(x): return x.arg(0)
    return z3.Not(x)
def Implies(a, b):
    if a is False or b is True: return True
    if a is True: return b
    if b is False: return Not(a)
    return z3.Implies(a, b)
def ite(c, a, b):
    if c is True: return a
    if c is False: return b
    if isinstance(a, PtrV):
        return PtrV(ite(c,a.r,b.r), ite(c,a.o,b.o), ite(c,a.i,b.i))
    if isinstance(a, (bool,)) or isinstance(b, (bool,)) or (not is_c(a) and z3.is_bool(a)):
        if a is True and b is False: return c
        if a is False and b is True: return Not(c)
        return z3.If(c, lift(a), lift(b))
    if is_c(a) and is_c(b) and a == b: return a
    if not is_c(a) and not is_c(b) and a.eq(b): return a
    return z3.If(c, lift(a), lift(b))
def lt(a,b): return a < b if is_c(a) and is_c(b) else lift(a) < lift(b)
def le(a,b): return a <= b if is_c(a) and is_c(b) else lift(a) <= lift(b)

class PtrV:
    __slots__ = ("r","o","i")
    def __init__(self, r, o=0, i=0): self.r, self.o, self.i = r, o, i
    def term(self):
        # eta: mkptr(pr t, po t, pi t) -> t
        r,o,i = self.r,self.o,self.i
        if not is_c(r) and not is_c(o) and not is_c(i) and z3.is_app(r) and r.decl().eq(PtrD.pr) and z3.is_app(o) and o.decl().eq(PtrD.po) and z3.is_app(i) and i.decl().eq(PtrD.pi):
            t = r.arg(0)
            if o.arg(0).eq(t) and i.arg(0).eq(t): return t
        return PtrD.mkptr(lift(r), lift(o), lift(i))
    def at(self, off=0, idx=0): return PtrV(self.r, add(self.o, off), add(self.i, idx))
    def __repr__(self): return f"<{self.r},{self.o},{self.i}>"
NULL = PtrV(0,0,0)
def ptr_of_term(t):
    if z3.is_app(t) and t.decl().eq(PtrD.mkptr): return PtrV(norm(t.arg(0)), norm(t.arg(1)), norm(t.arg(2)))
    return PtrV(PtrD.pr(t), PtrD.po(t), PtrD.pi(t))
def peq(a, b): return And(eqt(a.r,b.r), eqt(a.o,b.o), eqt(a.i,b.i))

class IntOfPtr:
    def __init__(self, p): self.p = p
class PtrDiff:
    """byte distance of two pointers into the same row, in elements"""
    def __init__(self, d): self.d = d

def blk_cmp(r1,o1,r2,o2):
    """'eq' / 'neq' / 'unk' syntactically"""
    re = (r1 == r2) if is_c(r1) and is_c(r2) else (True if (not is_c(r1) and not is_c(r2) and r1.eq(r2)) else None)
    oe = (o1 == o2) if is_c(o1) and is_c(o2) else (True if (not is_c(o1) and not is_c(o2) and o1.eq(o2)) else None)
    if re is True and oe is True: return "eq"
    if re is False or oe is False: return "neq"
    # same base with different constant displacement
    return "unk"
def idx_cmp(a, b):
    if is_c(a) and is_c(b): return "eq" if a == b else "neq"
    if not is_c(a) and not is_c(b) and a.eq(b): return "eq"
    d = sub(a, b)
    if is_c(d): return "eq" if d == 0 else "neq"
    d = norm_deep(d)
    if is_c(d): return "eq" if d == 0 else "neq"
    return "unk"

class MNode:
    """persistent log of a memory map"""
    __slots__ = ("prev","t","r","o","i","v","kind","_term")
    def __init__(self, kind, t, prev=None, r=None, o=None, i=None, v=None):
        self.kind, self.t, self.prev, self.r, self.o, self.i, self.v = kind, t, prev, r, o, i, v; self._term=None
    def term(self):
        if self._term is None:
            if self.t == "base": self._term = self.v
            elif self.t == "w":
                b = Blk.mkblk(lift(self.r), lift(self.o)); p = self.prev.term()
                self._term = z3.Store(p, b, z3.Store(z3.Select(p, b), lift(self.i), self.v))
            elif self.t == "row":
                b = Blk.mkblk(lift(self.r), lift(self.o)); self._term = z3.Store(self.prev.term(), b, self.v)
        return self._term

class State:
    def __init__(self):
        self.env = {}; self.mem = {}; self.facts = []; self.next = None; self.ghost = {}; self.writes = None; self.trace = []
    def copy(self):
        s = State(); s.env = dict(self.env); s.mem = dict(self.mem); s.facts = list(self.facts); s.next = self.next
        s.ghost = dict(self.ghost); s.trace = list(self.trace); return s

def enc(v, kind):
    """python value -> term stored in memory of this kind"""
    if kind == "ptr":
        if isinstance(v, PtrV): return v.term()
        raise Unsupported("storing non-pointer as ptr")
    if isinstance(v, bool): return z3.IntVal(1 if v else 0)
    if isinstance(v, (IntOfPtr, PtrDiff)): raise Unsupported("pointer difference stored")
    if not is_c(v) and z3.is_bool(v): return z3.If(v, z3.IntVal(1), z3.IntVal(0))
    return lift(v)
def dec(t, kind):
    if kind == "ptr": return ptr_of_term(t)
    if kind.startswith("fp"): return t
    return norm(t)

def has_quant(e, _c={}):
    k = e.get_id()
    st = [e]; seen = set()
    while st:
        x = st.pop()
        i = x.get_id()
        if i in seen: continue
        seen.add(i)
        if z3.is_quantifier(x): return True
        st.extend(x.children())
    return False

def kind_of(ty, lay):
    r = lay.resolve(ty)
    if r.k == "int": return "i%d" % (8 if r.a == 1 else r.a)
    if r.k == "ptr": return "ptr"
    if r.k == "fp": return "fp_" + r.a
    raise Unsupported("memory access of type " + repr(ty))
