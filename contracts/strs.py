"""Assumed contracts of the text operations of the stub library (strings, number output and input, exceptions).
A text is named by an integer, equal texts by equal integers; 0 is the empty text."""
from .spec import *
import re
I1, I2, I3 = [IntS], [IntS]*2, [IntS]*3
SLEN = z3.Function("slen", *I1, IntS); CAT = z3.Function("scat", *I2, IntS); SUB = z3.Function("ssub", *I3, IntS); CMP = z3.Function("scmp", *I2, IntS)
CHR = z3.Function("schr", *I1, IntS); REP = z3.Function("srep", *I2, IntS); UNUM = z3.Function("snumeral", *I1, IntS); SNUM = z3.Function("ssnumeral", *I1, IntS)
FNUM = z3.Function("sfnumeral", FpS, IntS); REPL = z3.Function("srepl", IntS, IntS, IntS, IntS, IntS); REV = z3.Function("srev", *I1, IntS); FIND = z3.Function("sfind", *I3, IntS); UNNUM = z3.Function("sunnumeral", *I1, IntS)
CHBASE = -5000000
LITS = {"": 0}
def lit(text):
    if text not in LITS: LITS[text] = (1 << 40) + len(LITS)
    return LITS[text]
def gtext(ex, name):
    g = ex.M.globals.get(name, ""); m = re.search(r'c"((?:[^"\\]|\\.)*)"', g)
    if not m:
        if re.search(r"\[1 x i8\]\s+zeroinitializer", g): return ""
        raise Unsupported("text of " + name)
    t = re.sub(r"\\([0-9A-Fa-f]{2})", lambda k: chr(int(k.group(1), 16)), m.group(1))
    return t.split("\0")[0]
from vcg.ir import Unsupported
def text_ok(ex, st, t):
    if is_c(t): return t
    ex.assume(st, z3.And(t >= 0, t < 2**64, SLEN(t) >= 0, SLEN(t) < 2**56, (SLEN(t) == 0) == (t == 0)))
    return t
def slen(ex, st, t):
    if not is_c(t) and ltree(t): return ite(t.arg(0), slen(ex, st, norm(t.arg(1))), slen(ex, st, norm(t.arg(2))))
    if is_c(t): return len(next(k for k, v in LITS.items() if v == t))
    text_ok(ex, st, t); return SLEN(t)
def h_lit(ex, st, ins, args):
    p = args[0]
    def go(r):
        if is_c(r):
            for n, k in ex.gconst.items():
                if k == r and isinstance(n, str): return lit(gtext(ex, n))
            raise Unsupported("text of an unknown object")
        if z3.is_app_of(r, z3.Z3_OP_ITE): return ite(r.arg(0), go(norm(r.arg(1))), go(norm(r.arg(2))))
        if z3.is_app_of(r, z3.Z3_OP_SUB) and z3.is_int_value(r.arg(0)) and r.arg(0).as_long() == CHBASE and is_c(p.i) and p.i == 0: return r.arg(1)
        t = fresh("literal", IntS); ks = [(k, n) for n, k in ex.gconst.items() if isinstance(n, str) and re.search(r'constant \[\d+ x i8\]', str(ex.M.globals.get(n, "")))]      # one of the literals of the program
        ex.oblige(st, "the text of a literal is used", And(eqt(p.i, 0), eqt(p.o, 0), z3.Or(*[r == k for k, n in ks])) if ks else z3.BoolVal(False))
        ex.assume(st, [z3.Implies(r == k, t == lit(gtext(ex, n))) for k, n in ks]); return text_ok(ex, st, t)
    return go(p.r)
def ltree(t):
    """a choice among literal texts?"""
    if is_c(t): return t in LITS.values()
    return z3.is_expr(t) and z3.is_app_of(t, z3.Z3_OP_ITE) and ltree(norm(t.arg(1))) and ltree(norm(t.arg(2)))
def lcat(a, b):
    if not is_c(a): return ite(a.arg(0), lcat(norm(a.arg(1)), b), lcat(norm(a.arg(2)), b))
    if not is_c(b): return ite(b.arg(0), lcat(a, norm(b.arg(1))), lcat(a, norm(b.arg(2))))
    n = lambda v: next(k for k, x in LITS.items() if x == v)
    return lit(n(a) + n(b))
def cat(ex, st, a, b):
    if ltree(a) and ltree(b): return lcat(a, b)
    if is_c(a) and a == 0: return b
    if is_c(b) and b == 0: return a
    if not is_c(b) and z3.is_app(b) and b.decl().eq(CAT): return cat(ex, st, cat(ex, st, a, norm(b.arg(0))), norm(b.arg(1)))
    la, lb = slen(ex, st, a), slen(ex, st, b); t = CAT(lift(a), lift(b)); text_ok(ex, st, t)
    ex.assume(st, [SLEN(t) == lift(la) + lift(lb), z3.Implies(lift(a) == 0, t == lift(b)), z3.Implies(lift(b) == 0, t == lift(a))])
    return t
def h_cat(ex, st, ins, args): return cat(ex, st, *args)
def h_len(ex, st, ins, args): return slen(ex, st, args[0])
def h_unum(ex, st, ins, args):
    u = args[0]; t = UNUM(lift(u)); text_ok(ex, st, t); ex.assume(st, [UNNUM(t) == lift(u), SLEN(t) >= 1, SLEN(t) <= 20] + [t != k for s, k in LITS.items() if not s.isdigit()]); return t
def pure1(f, n):
    def h(ex, st, ins, args): return text_ok(ex, st, f(*[lift(a) for a in args[:n]]))
    return h
def chr_(ex, st, c):
    if is_c(c) and 0 < c < 128: return lit(chr(c))
    t = text_ok(ex, st, CHR(lift(c))); ex.assume(st, SLEN(t) == 1); return t
def h_ch(ex, st, ins, args): t = chr_(ex, st, args[0]); return t
def h_sub(ex, st, ins, args):
    s, p, n = args; ls = slen(ex, st, s); ex.oblige(st, "a piece of a text starts inside it", le(p, ls))
    return sub_(ex, st, s, p, n)
def sub_(ex, st, s, p, n):
    ls = lift(slen(ex, st, s)); p_, n_ = lift(p), lift(n); n2 = z3.If(n_ > ls - p_, ls - p_, n_)
    t = SUB(lift(s), p_, n2); text_ok(ex, st, t); ex.assume(st, [SLEN(t) == n2, z3.Implies(z3.And(p_ == 0, n2 == ls), t == lift(s))]); return t
def h_cmp(ex, st, ins, args):
    a, b = lift(args[0]), lift(args[1]); r = CMP(a, b); ex.assume(st, z3.And(r >= 0, r < 2**32, (r == 0) == (a == b), z3.Implies(a != b, (r < 2**31) == (rank(b) < rank(a))))); return r
def h_chars(ex, st, ins, args): text_ok(ex, st, args[0]); return PtrV(sub(CHBASE, lift(args[0])), 0, 0)
def h_range(ex, st, ins, args):
    a, b = args
    if not (not is_c(a.r) and z3.is_app_of(a.r, z3.Z3_OP_SUB) and z3.is_int_value(a.r.arg(0)) and a.r.arg(0).as_long() == CHBASE): raise Unsupported("text of a character range")
    s = norm(a.r.arg(1)); ls = slen(ex, st, s); ex.oblige(st, "a piece of a text is a range of its characters", And(eqt(a.r, b.r), le(0, a.i), le(a.i, b.i), le(b.i, ls)))
    return sub_(ex, st, s, a.i, sub(b.i, a.i))
def h_extract_u(ex, st, ins, args):
    """reading an unsigned number: a value of the type is stored; the text of a value reads as that value"""
    s, p = lift(args[0]), args[1]; r = fresh("read", IntS); u = z3.Int("xu"); text_ok(ex, st, s)
    ex.assume(st, [r >= 0, r < 2**32, z3.ForAll([u], z3.Implies(z3.And(0 <= u, u < 2**32, UNUM(u) == s), r == u), patterns=[UNUM(u)])])
    ex.write(st, "i32", p, r); return fresh("readok", z3.BoolSort())
def h_throw(ex, st, ins, args):
    n = next((k for k, v in ex.gconst.items() if is_c(args[1].r) and v == args[1].r), "?"); ex.thrown(st, ex.u.demangle(n) if not str(n).startswith("_ZTI") else re.sub(r"^_ZTI(N?)", "", n))
def h_exc(ex, st, ins, args): return ex.alloc(st)
STRS = [(r"^vp_lit$", h_lit), (r"^vp_cat$", h_cat), (r"^vp_len$", h_len), (r"^vp_unum$", h_unum), (r"^vp_snum$", pure1(SNUM, 1)), (r"^vp_fnum$", pure1(FNUM, 1)), (r"^vp_ch$", h_ch), (r"^vp_sub$", h_sub), (r"^vp_cmp$", h_cmp),
        (r"^vp_rep$", pure1(REP, 2)), (r"^vp_chars$", h_chars), (r"^vp_range$", h_range), (r"^vp_extract_u$", h_extract_u), (r"^vp_rev$", pure1(REV, 1)), (r"^vp_find$", pure1(FIND, 3)), (r"^vp_repl$", pure1(REPL, 4)),
        (r"^__cxa_throw$", h_throw), (r"^__cxa_allocate_exception$", h_exc), (r"^__cxa_free_exception$", nop), (r"^std::(runtime_error|logic_error|exception)::~", nop), (r"^mathic::\w*Exception::~", nop), (r"^(non-)?virtual thunk", nop)]
