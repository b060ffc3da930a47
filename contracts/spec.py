"""Shared specification vocabulary."""
import z3
from vcg.sym import *
from vcg import ir
from vcg.unit import pure, nop, alloc_handler, evalfn

B = z3.BoolSort()
# A strict weak order on a finite set of values is the order of an integer rank, so `rank`
# (uninterpreted) ranges over all strict weak orders.
rank = z3.Function("rank", IntS, IntS)
# Content measure: an arbitrary map to a commutative group (w uninterpreted).  Equality of
# totals for every w is equality of multisets.
w = z3.Function("w", IntS, IntS)
T = z3.Function("T", IntS, B)      # instantiation marker, true everywhere
total_f = z3.Function("total", ROWI, IntS, IntS, IntS)

def sel(row, i): return z3.Select(row, lift(i))
def peel(row):
    ws = []
    while z3.is_app_of(row, z3.Z3_OP_STORE):
        ws.append(row); row = row.arg(0)
    return row, ws
def total(row, lo, hi, wt=w):
    """sum of wt(row[i]) for lo <= i < hi; stores are peeled off by the update lemma"""
    base, ws = peel(row)
    t = total_f(base, lift(lo), lift(hi))
    for s in ws:
        a, i, v = s.arg(0), s.arg(1), s.arg(2)
        t = t + z3.If(z3.And(lift(lo) <= i, i < lift(hi)), wt(v) - wt(z3.Select(a, i)), 0)
    return t
def total_step(row, lo, hi):
    """total(row,lo,hi+1) == total(row,lo,hi) + w(row[hi])   (definition of total)"""
    base, _ = peel(row)
    return z3.Implies(lift(lo) <= lift(hi), total_f(base, lift(lo), lift(hi)+1) == total_f(base, lift(lo), lift(hi)) + w(z3.Select(base, lift(hi))))
def total_zero(row, lo): 
    base, _ = peel(row); return total_f(base, lift(lo), lift(lo)) == 0
def rows_in(terms):
    """base rows that occur as first argument of total in the given terms"""
    out = {}; seen = set(); st = list(terms)
    while st:
        x = st.pop()
        if not z3.is_expr(x) or x.get_id() in seen: continue
        seen.add(x.get_id())
        if z3.is_app(x) and x.decl().eq(total_f): out[x.get_id()] = x
        if z3.is_quantifier(x): st.append(x.body())
        st.extend(x.children())
    return list(out.values())

def forall(n, f, pat=None):
    vs = [z3.Int(f"q{k}") for k in range(n)]
    b = f(*vs)
    if b is True: return True
    if pat: return z3.ForAll(vs, b, patterns=[pat(*vs)])
    for v in reversed(vs): b = z3.ForAll([v], b, patterns=[T(v)])     # nested: every variable is instantiated by its own marker
    return b
def seeds(*ts): return [T(lift(t)) == z3.BoolVal(True) for t in ts]

# ---- configuration functions of the queues
cmpres = z3.Function("cmpres", IntS, IntS, IntS)
cr_less = z3.Function("cr_less", IntS, B); cr_eq = z3.Function("cr_eq", IntS, B)
def h_compare(ex, st, ins, args):
    a, b = [lift(x) for x in args if not isinstance(x, PtrV)]
    r = cmpres(a, b)
    ex.assume(st, z3.And(r >= 0, r < (1 << 32), cr_less(r) == (rank(a) < rank(b)), cr_eq(r) == (rank(a) == rank(b))))
    return r
def h_less(ex, st, ins, args): return cr_less(lift(args[-1]))
def h_eq(ex, st, ins, args): return cr_eq(lift(args[-1]))
dedup_f = z3.Function("dedup", IntS, IntS, IntS)
def h_dedup(ex, st, ins, args):
    a, b = [lift(x) for x in args if not isinstance(x, PtrV)]
    c = dedup_f(a, b)
    ex.oblige(st, "only entries that compare equal are combined", rank(a) == rank(b))
    ex.assume(st, z3.And(c >= 0, c < (1 << 64), rank(c) == rank(a), w(c) == w(a) + w(b)))
    return c
CONF_Q = [(r"Conf::compare\(", h_compare), (r"Conf::cmpLessThan\(", h_less), (r"Conf::cmpEqual\(", h_eq), (r"Conf::deduplicate\(", h_dedup)]
nbytes = z3.Function("nbytes", IntS, IntS)
def h_new(ex, st, ins, args):
    p = ex.alloc(st); ex.assume(st, nbytes(lift(p.r)) == lift(args[0])); return p
NEWDEL = [(r"^operator new(\[\])?\(unsigned long\)$", h_new), (r"^operator delete(\[\])?\(void\*(, unsigned long)?\)$", nop)]

class Contract:
    """base: subclasses give pre/post/invs"""
    def __init__(self, **kw): self.__dict__.update(kw)
    def pre(self, ex, st, args): return []
    def post(self, ex, old, st, args, ret): return []
    def invs(self, ex, L, st): return []

def phis_of(L, st, kind):
    """header phis of a given scalar kind -> {name: value}"""
    out = {}
    for nm, ty in L.phis:
        if nm in st.env and repr(ty) == kind: out[nm] = st.env[nm]
    return out
def values_of(ex, st, kind="int"):
    return {n: v for n, v in st.env.items() if (is_c(v) and not isinstance(v, bool)) or (z3.is_expr(v) and z3.is_int(v))}

# ---- which allocations are live: released storage is not used, nothing is released twice or leaked
LIVES = z3.ArraySort(IntS, z3.BoolSort())
def live_init(ex, st): st.ghost["live"] = z3.Const("live0", LIVES)
def live(st): return st.ghost.get("live")
def live_new(ex, st, p):
    if "live" in st.ghost:
        l2 = fresh("live", LIVES); ex.assume(st, l2 == z3.Store(live(st), lift(p.r), z3.BoolVal(True))); ex.setghost(st, "live", l2)
def h_new_live(ex, st, ins, args):
    p = h_new(ex, st, ins, args); live_new(ex, st, p); return p
def h_del_live(ex, st, ins, args):
    p = args[0]
    if "live" in st.ghost:
        if is_c(p.r) and p.r == 0: return None
        l = live(st)
        ex.oblige(st, "only storage in use is released, and from its start", Or(eqt(p.r, 0), And(z3.Select(l, lift(p.r)), eqt(p.o, 0), eqt(p.i, 0))))
        l2 = fresh("live", LIVES)
        ex.assume(st, l2 == (z3.If(lift(p.r) == 0, l, z3.Store(l, lift(p.r), z3.BoolVal(False)))))
        ex.setghost(st, "live", l2)
    return None
NEWDEL_LIVE = [(r"^operator new(\[\])?\(unsigned long\)$", h_new_live), (r"^operator delete(\[\])?\(void\*(, unsigned long)?\)$", h_del_live)]
def live_same_but(old, new, gone, come):
    """new = old - gone + come (roots; conditions: list of (root, cond))"""
    r = z3.Int("lr")
    e = z3.Select(old, r)
    for x, c in gone: e = z3.And(e, z3.Not(z3.And(lift(c), r == lift(x))))
    for x, c in come: e = z3.Or(e, z3.And(lift(c), r == lift(x)))
    return z3.ForAll([r], z3.Select(new, r) == e, patterns=[z3.Select(new, r)])
