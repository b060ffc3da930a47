"""Cut-point symbolic executor: turns one function plus its contract into obligations and
discharges them.  See DESIGN.md, section 'How obligations are generated'."""
import re, time, z3, subprocess, tempfile, os, sys
from . import ir
from .ir import Unsupported
from .sym import *
sys.setrecursionlimit(20000)

class Budget(Exception): pass

def fpconst(t):
    """the constant named by its value (a double is written in decimal or as 16 hexadecimal digits of its bits)"""
    import struct
    x = t if isinstance(t, float) else struct.unpack(">d", bytes.fromhex(t[2:].rjust(16, "0")))[0] if t.startswith("0x") else float(t)
    return z3.Const("fp:" + repr(x), FpS)
def fcmp(pred, a, b):
    """comparisons in terms of <, <= and ==, and of whether the operands are ordered"""
    F = lambda n, x, y: z3.Function("fcmp_"+n, FpS, FpS, z3.BoolSort())(x, y)
    if pred in ("ogt", "oge"): return F({"ogt": "olt", "oge": "ole"}[pred], b, a)
    if pred in ("ugt", "uge", "ult", "ule"): return z3.Not(F({"ugt": "ole", "uge": "olt"}[pred], a, b) if pred[1] == "g" else F({"ult": "ole", "ule": "olt"}[pred], b, a))
    if pred == "une": return z3.Not(F("oeq", a, b))
    return F(pred, a, b)
class Obl:
    def __init__(self, name, ok, how, t, detail=""): self.name, self.ok, self.how, self.t, self.detail = name, ok, how, t, detail

SOLVER_TIME = {"z3": 0.0, "cvc5": 0.0}
SOLVER_COUNT = {"z3": 0, "cvc5": 0}
TIMED_OUT = [0]

def _mk(timeout, seed=0, **kw):
    s = z3.SolverFor("ALL") if False else z3.SimpleSolver()
    s.set("timeout", int(timeout*1000)); s.set("mbqi", False); s.set("auto_config", False); s.set("random_seed", seed)
    for k, v in kw.items(): s.set(k, v)
    return s

def split_goal(g):
    if g is True: return []
    if g is False: return [z3.BoolVal(False)]
    if z3.is_and(g):
        out = []
        for c in g.children(): out += split_goal(c)
        return out
    if z3.is_implies(g):
        return [z3.Implies(g.arg(0), c) for c in split_goal(g.arg(1))]
    return [g]

def prove(facts, goal, timeout=5.0, hard=False):
    """('ok', backend) | ('sat', model text) | ('unknown', reason) | ('timeout', reason)"""
    if goal is True: return ("ok", "trivial")
    goal = lift(goal)
    t0 = time.time()
    s = _mk(timeout); s.add(*facts); s.add(z3.Not(goal))
    r = s.check(); SOLVER_TIME["z3"] += time.time()-t0
    if r == z3.unsat: SOLVER_COUNT["z3"] += 1; return ("ok", "z3")
    reason = s.reason_unknown() if r == z3.unknown else ""
    res = None
    if r == z3.sat: res = ("sat", model_text(s))
    elif "timeout" in reason or "canceled" in reason: res = ("timeout", reason)
    else: res = ("unknown", reason)
    if uses_bits(goal) or (not hard and False):
        t0 = time.time(); r4 = bitblast(facts, goal, timeout); SOLVER_TIME["z3"] += time.time()-t0
        if r4 == "ok": SOLVER_COUNT["z3"] += 1; return ("ok", "z3 bit-vectors")
    if not hard or r == z3.sat: return res
    for kw in ({"arith.solver": 2}, {"seed": 7, "case_split": 3},):
        t0 = time.time()
        try:
            s = _mk(timeout, **kw); s.add(*facts); s.add(z3.Not(goal)); r2 = s.check()
        except z3.Z3Exception: continue
        SOLVER_TIME["z3"] += time.time()-t0
        if r2 == z3.unsat: SOLVER_COUNT["z3"] += 1; return ("ok", "z3")
    t0 = time.time()
    r3 = cvc5_check(facts, goal, timeout); SOLVER_TIME["cvc5"] += time.time()-t0
    if r3 == "unsat": SOLVER_COUNT["cvc5"] += 1; return ("ok", "cvc5")
    return res

BITF = re.compile(r"bit(and|or|xor)(\d+)$")
def uses_bits(e):
    st = [e]; seen = set()
    while st:
        x = st.pop()
        if not z3.is_expr(x) or x.get_id() in seen: continue
        seen.add(x.get_id())
        if z3.is_app(x) and x.num_args() == 2 and BITF.match(x.decl().name()): return True
        st.extend(x.children())
    return False
class NoBlast(Exception): pass
def halfshift(x):
    """k if x is a product with 2^k, or is something without its remainder modulo 2^k"""
    for k in (32, 16, 8):
        if z3.is_mul(x) and any(z3.is_int_value(c) and c.as_long() == (1 << k) for c in x.children()): return k
        if z3.is_sub(x) and x.num_args() == 2 and z3.is_mod(x.arg(1)) and x.arg(1).arg(0).eq(x.arg(0)) and z3.is_int_value(x.arg(1).arg(1)) and x.arg(1).arg(1).as_long() == (1 << k): return k
    return 0
def bitblast(facts, goal, timeout, W=136):
    """Bit-level fallback: quantifier-free integer facts are read as W-bit vectors (terms without a known range below
    2^64 are not read, intermediate values may not leave W bits), so that and/or/xor get their real meaning."""
    rng = {}
    for f in facts:
        for c in ([f] if not z3.is_and(f) else f.children()):
            if z3.is_lt(c) and z3.is_int_value(c.arg(1)) and 0 < c.arg(1).as_long() <= 2**64: rng[c.arg(0).get_id()] = min(c.arg(1).as_long()-1, rng.get(c.arg(0).get_id(), 2**64))
            if z3.is_le(c) and z3.is_int_value(c.arg(1)) and 0 <= c.arg(1).as_long() <= 2**64: rng[c.arg(0).get_id()] = min(c.arg(1).as_long(), rng.get(c.arg(0).get_id(), 2**64))
    nn = set()
    for f in facts:
        for c in ([f] if not z3.is_and(f) else f.children()):
            if z3.is_ge(c) and z3.is_int_value(c.arg(1)) and c.arg(1).as_long() >= 0: nn.add(c.arg(0).get_id())
            if z3.is_le(c) and z3.is_int_value(c.arg(0)) and c.arg(0).as_long() >= 0: nn.add(c.arg(1).get_id())
    memo = {}; side = []
    def I(t):
        k = t.get_id()
        if k in memo: return memo[k][:3]
        r = I0(t)
        if r[1] < -(1 << (W-4)) or r[2] > (1 << (W-4)): raise NoBlast()
        memo[k] = r + (t,); return r
    def opaque(t):
        if t.get_id() in rng and t.get_id() in nn:
            v = fresh("bb", z3.BitVecSort(W)); side.append(z3.ULE(v, z3.BitVecVal(rng[t.get_id()], W))); return (v, 0, rng[t.get_id()])
        raise NoBlast()
    def I0(t):
        if z3.is_int_value(t): c = t.as_long(); return (z3.BitVecVal(c, W), c, c)
        if z3.is_app(t):
            d = t.decl().name(); m = BITF.match(d) if t.num_args() == 2 else None
            if m:
                a, b = I(t.arg(0)), I(t.arg(1)); hi = (1 << int(m.group(2))) - 1
                if a[1] < 0 or b[1] < 0: raise NoBlast()
                return ({"and": a[0] & b[0], "or": a[0] | b[0], "xor": a[0] ^ b[0]}[m.group(1)], 0, hi)
            k = t.decl().kind()
            if k == z3.Z3_OP_ADD:
                a = [I(x) for x in t.children()]; r = a[0][0]
                for x in a[1:]: r = r + x[0]
                return (r, sum(x[1] for x in a), sum(x[2] for x in a))
            if k == z3.Z3_OP_SUB:
                a, b = I(t.arg(0)), I(t.arg(1)); return (a[0]-b[0], a[1]-b[2], a[2]-b[1])
            if k == z3.Z3_OP_UMINUS: a = I(t.arg(0)); return (-a[0], -a[2], -a[1])
            if k == z3.Z3_OP_MUL and t.num_args() == 2:
                a, b = I(t.arg(0)), I(t.arg(1)); ps = [x*y for x in a[1:] for y in b[1:]]; return (a[0]*b[0], min(ps), max(ps))
            if k == z3.Z3_OP_ITE: c, a, b = Bo(t.arg(0)), I(t.arg(1)), I(t.arg(2)); return (z3.If(c, a[0], b[0]), min(a[1], b[1]), max(a[2], b[2]))
            if k in (z3.Z3_OP_MOD, z3.Z3_OP_IDIV) and z3.is_int_value(t.arg(1)):
                m = t.arg(1).as_long(); a = I(t.arg(0))
                if a[1] >= 0 and m > 0:
                    mm = z3.BitVecVal(m, W)
                    return (z3.URem(a[0], mm), 0, m-1) if k == z3.Z3_OP_MOD else (z3.UDiv(a[0], mm), a[1]//m, a[2]//m)
                if m > 0 and m & (m-1) == 0 and k == z3.Z3_OP_MOD: return (a[0] & z3.BitVecVal(m-1, W), 0, m-1)
        return opaque(t)
    def Bo(t):
        if z3.is_true(t) or z3.is_false(t): return t
        if z3.is_not(t) or z3.is_and(t) or z3.is_or(t) or z3.is_implies(t) or (z3.is_app_of(t, z3.Z3_OP_ITE)): return t.decl()(*[Bo(c) for c in t.children()]) if not (z3.is_and(t) or z3.is_or(t)) else (z3.And if z3.is_and(t) else z3.Or)(*[Bo(c) for c in t.children()])
        if z3.is_eq(t) or z3.is_distinct(t):
            if z3.is_bool(t.arg(0)): r = Bo(t.arg(0)) == Bo(t.arg(1))
            elif z3.is_int(t.arg(0)): r = I(t.arg(0))[0] == I(t.arg(1))[0]
            else: raise NoBlast()
            return z3.Not(r) if z3.is_distinct(t) else r
        for f, g in ((z3.is_lt, lambda a, b: a < b), (z3.is_le, lambda a, b: a <= b), (z3.is_gt, lambda a, b: a > b), (z3.is_ge, lambda a, b: a >= b)):
            if f(t): return g(I(t.arg(0))[0], I(t.arg(1))[0])
        if z3.is_const(t) and z3.is_bool(t) and t.decl().kind() == z3.Z3_OP_UNINTERPRETED: return t
        if z3.is_app(t) and z3.is_bool(t) and t.decl().kind() == z3.Z3_OP_UNINTERPRETED:
            if t.get_id() not in memo: memo[t.get_id()] = (fresh("bbb", z3.BoolSort()), 0, 0, t)
            return memo[t.get_id()][0]
        raise NoBlast()
    try: g = Bo(goal)
    except NoBlast: return "no"
    fs = []
    for f in facts:
        if has_quant(f): continue
        try: fs.append(Bo(f))
        except (NoBlast, z3.Z3Exception): pass
    s = z3.Solver(); s.set("timeout", int(timeout*1000)); s.add(*fs, *side, z3.Not(g))
    return "ok" if s.check() == z3.unsat else "no"

def model_text(s):
    try:
        m = s.model(); return "\n".join(f"{d.name()} = {m[d]}" for d in m.decls() if d.arity()==0)[:4000]
    except z3.Z3Exception: return ""

def cvc5_check(facts, goal, timeout):
    s = z3.Solver(); s.add(*facts); s.add(z3.Not(goal))
    txt = "(set-logic ALL)\n" + s.to_smt2().replace("(set-info :status unknown)", "")
    if os.environ.get("VCG_DUMP"): open(os.environ["VCG_DUMP"], "w").write(txt)
    try:
        p = subprocess.run(["cvc5", "--lang=smt2", f"--tlimit={int(timeout*1000)}", "-q"], input=txt, capture_output=True, text=True, timeout=timeout+5)
        return p.stdout.strip().split("\n")[0] if p.stdout.strip() else "unknown"
    except subprocess.TimeoutExpired: return "unknown"

# ---------------------------------------------------------------- CFG
class Loops:
    def __init__(self, f):
        self.succ = {b: self._succ(f.blocks[b][-1]) for b in f.order}
        self.pred = {b: [] for b in f.order}
        for b, ss in self.succ.items():
            for s in ss: self.pred[s].append(b)
        # depth-first back edges; natural bodies by backward reachability from the latch
        self.headers = {}
        color = {}
        back = []
        stack = [(f.entry, iter(self.succ[f.entry]))]; color[f.entry] = 1
        while stack:
            b, it = stack[-1]
            for s in it:
                if s not in color: color[s] = 1; stack.append((s, iter(self.succ[s]))); break
                elif color[s] == 1: back.append((b, s))
            else:
                color[b] = 2; stack.pop()
        self.reach = set(color)
        for latch, h in back:
            body = {h}; work = [latch]
            while work:
                x = work.pop()
                if x in body: continue
                body.add(x); work += [p for p in self.pred[x] if p in color]
            self.headers.setdefault(h, set()).update(body)
    def _succ(self, ins):
        if ins.op == "br": return list(ins.extra["to"])
        if ins.op == "switch": return list(dict.fromkeys([ins.extra["default"]] + [c[1] for c in ins.extra["cases"]]))
        if ins.op == "invoke": return list(ins.extra["to"])
        return []

class LoopCtx:
    hdr = {}      # values of the header phis at the start of the iteration being executed
    def __init__(self, header, phis, entry, pre, outer, body): self.header, self.phis, self.entry, self.pre, self.outer, self.body = header, phis, entry, pre, outer, body

class Exec:
    def __init__(self, unit):
        self.u = unit; self.M = unit.module; self.lay = ir.Layout(self.M)
        self.lite = None; self.obls = []; self.dry = []; self.wlogs = []; self.active = []
        self.byteidx = getattr(unit, "bytegep", 1)
        self.timeout = getattr(unit, "timeout", 6.0); self.longer = 4      # so many timeouts are tried again with more time
        self.gconst = {}; self.covers = []; self.deadline = None; self.paths = 0; self.houdini_queries = 0; self.tdrops = set(); self.retries = 0; self.last_fail = ""
        self.escaped = False
        self.proved_cache = set()
        self.calls_seen = {}; self.dropped = {}

    # ---- facts
    def assume(self, st, f):
        if isinstance(f, (list, tuple)):
            for x in f: self.assume(st, x)
            return
        if f is True: return
        if f is False: f = z3.BoolVal(False)
        if z3.is_and(f):
            for c in f.children(): self.assume(st, c)
            return
        st.facts.append(f)
        if not has_quant(f): self.lite.add(f)
    def valid(self, cond):
        if cond is True: return True
        if cond is False: return False
        self.lite.push(); self.lite.add(z3.Not(cond)); r = self.lite.check(); self.lite.pop()
        return r == z3.unsat
    def feasible(self, cond):
        if cond is True: return True
        if cond is False: return False
        self.lite.push(); self.lite.add(cond); r = self.lite.check(); self.lite.pop()
        return r != z3.unsat
    def inconsistent(self):
        return self.lite.check() == z3.unsat
    def oblige(self, st, name, goal, hard=True):
        if self.dry: self.assume(st, goal); return
        self.check_deadline()
        if goal is True: self.obls.append(Obl(name, True, "evaluated", 0))
        for k, g in enumerate(split_goal(goal)):
            nm = name
            t0 = time.time()
            r = ("ok", "trivial")
            for g2, ef in self.prep(st, g):
                facts = st.facts + ef
                r = prove(facts, g2, self.timeout, hard=hard)
                if r[0] == "timeout" and self.longer > 0: self.longer -= 1; r = prove(facts, g2, 4*self.timeout, hard=False)
                if r[0] != "ok": g = g2; break
            dt = time.time()-t0
            self.obls.append(Obl(nm, r[0] == "ok", r[1] if r[0] == "ok" else r[0], dt, "" if r[0]=="ok" else
                 f"goal: {str(g)[:1500]}\npath: {' -> '.join(st.trace[-40:])}\nsolver: {r[0]} {r[1][:2500]}"))
            if os.environ.get("VCG_V"): print("  obl", nm, r[0], r[1][:60] if r[0]=="ok" else "", "%.2f"%dt, flush=True)
            if r[0] != "ok" and os.environ.get("VCG_V"): print(str(g)[:3000]); print(" -> ".join(st.trace))
            if r[0] != "ok" and os.environ.get("VCG_DUMPF"):
                s = z3.Solver(); s.add(*facts); s.add(z3.Not(g)); open(os.environ["VCG_DUMPF"],"w").write(s.to_smt2())
        self.assume(st, goal)
    def prep(self, st, g):
        """skolemise a universally quantified goal; instantiation seeds from the contract"""
        sk = []
        def strip(g):
            if z3.is_quantifier(g) and g.is_forall():
                vs = [fresh("sk", g.var_sort(i)) for i in range(g.num_vars())]
                sk.extend(vs)
                return strip(z3.substitute_vars(g.body(), *reversed(vs)))
            if z3.is_implies(g): return z3.Implies(g.arg(0), strip(g.arg(1)))
            return g
        if not isinstance(g, bool): g = strip(g)
        out = []
        for gg in split_goal(g):
            ef = getattr(self.contract, "extra_facts", None)
            out.append((gg, list(ef(self, st, gg, sk)) if ef else []))
        return out
    def check_deadline(self):
        if self.deadline and time.time() > self.deadline: raise Budget("time budget of this function used up")

    # ---- fresh values
    def ranged(self, st, v, n):
        self.assume(st, z3.And(v >= 0, v < (1 << n)))
        return v
    def fresh_val(self, st, ty, name="v"):
        r = self.lay.resolve(ty)
        if r.k == "int":
            if r.a == 1: return fresh(name, z3.BoolSort())
            return self.ranged(st, fresh(name, IntS), r.a)
        if r.k == "ptr":
            p = ptr_of_term(fresh(name, PtrD)); self.wfptr(st, p); return p
        if r.k == "fp": return fresh(name, FpS)
        if r.k == "struct": return [self.fresh_val(st, e, name) for e in r.a]
        raise Unsupported("fresh " + repr(ty))
    def wfptr(self, st, p):
        if not is_c(p.r):
            h = getattr(self.contract, "wfptr", None)
            if h and h(self, st, p): return
            c = lift(p.r) < lift(st.next)
            if not self.escaped: c = z3.And(c, p.r >= 0)
            self.assume(st, c)
    def alloc(self, st, name="new"):
        r = st.next
        st.next = add(st.next, 1)
        return PtrV(r, 0, 0)

    # ---- memory
    def memnode(self, st, kind):
        if kind not in st.mem:
            # lazily created: the same initial map for all states of this function
            if kind not in self.mem0: self.mem0[kind] = MNode(kind, "base", v=z3.Const("mem0_"+kind, memsort(kind)))
            st.mem[kind] = self.mem0[kind]
        return st.mem[kind]
    def bcmp(self, r1,o1,r2,o2):
        c = blk_cmp(r1,o1,r2,o2)
        if c != "unk": return c
        e = And(eqt(r1,r2), eqt(o1,o2))
        if self.valid(Not(e)): return "neq"
        if self.valid(e): return "eq"
        return "unk"
    def canon(self, st, p):
        """name a computed pointer by a root the contract knows, where that is certain"""
        h = getattr(self.contract, "roots", None)
        if h is None or is_c(p.r) or z3.is_const(p.r): return p
        for r in h(self, st):
            if is_c(r): continue
            if p.r.eq(r): return p
            if self.valid(p.r == r): return PtrV(r, p.o if is_c(p.o) else next((k for k in (0, 8, 4, 12, 16, 24) if self.valid(p.o == k)), p.o), p.i)
        return p
    def read(self, st, kind, p):
        p = self.canon(st, p); n = self.memnode(st, kind)
        r, o, i = p.r, p.o, p.i
        while True:
            if n.t == "base":
                v = z3.Select(z3.Select(n.v, Blk.mkblk(lift(r), lift(o))), lift(i)); break
            c = self.bcmp(n.r, n.o, r, o)
            if c == "neq": n = n.prev; continue
            if c == "eq":
                if n.t == "row": v = z3.Select(n.v, lift(i)); break
                ic = idx_cmp(n.i, i)
                if ic == "eq": return dec(n.v, kind)
                if ic == "neq": n = n.prev; continue
                v = z3.Select(self.row_of(n, kind, r, o), lift(i)); break
            v = z3.Select(z3.Select(n.term(), Blk.mkblk(lift(r), lift(o))), lift(i)); break
        self.range_facts(st, v, kind)
        return dec(v, kind)
    def range_facts(self, st, v, kind):
        if kind == "ptr": self.wfptr(st, ptr_of_term(v))
        elif kind[0] == "i":
            key = ("rf", v.get_id())
            if key not in st.ghost:
                st.ghost[key] = v
                self.assume(st, z3.And(v >= 0, v < (1 << int(kind[1:]))))
    def row_of(self, n, kind, r, o):
        ws = []
        while True:
            if n.t == "base": row = z3.Select(n.v, Blk.mkblk(lift(r), lift(o))); break
            c = self.bcmp(n.r, n.o, r, o)
            if c == "neq": n = n.prev; continue
            if c == "eq":
                if n.t == "row": row = n.v; break
                ws.append((n.i, n.v)); n = n.prev; continue
            row = z3.Select(n.term(), Blk.mkblk(lift(r), lift(o))); break
        for i, v in reversed(ws): row = z3.Store(row, lift(i), v)
        return row
    def row(self, st, kind, r, o=0): return self.row_of(self.memnode(st, kind), kind, r, o)
    def memterm(self, st, kind): return self.memnode(st, kind).term()
    def write(self, st, kind, p, v):
        if isinstance(v, PtrV) and is_c(v.r) and v.r < 0: self.escaped = self.escaped or not (is_c(p.r) and p.r < 0)
        t = enc(v, kind); p = self.canon(st, p)
        for w in self.wlogs: w.append((kind, p.r, p.o))
        hook = getattr(self.contract, "on_write", None)
        st.mem[kind] = MNode(kind, "w", self.memnode(st, kind), p.r, p.o, p.i, t)
        if hook: hook(self, st, kind, p, v)
    def setrow(self, st, kind, r, o, rowterm):
        for w in self.wlogs: w.append((kind, r, o))
        st.mem[kind] = MNode(kind, "row", self.memnode(st, kind), r, o, None, rowterm)
    def havoc_row(self, st, kind, r, o=0, name="row"):
        t = fresh(name, rowsort(kind)); self.setrow(st, kind, r, o, t); return t
    def havoc_kind(self, st, kind):
        for w in self.wlogs: w.append((kind, None, None))
        st.mem[kind] = MNode(kind, "base", v=fresh("mem_"+kind, memsort(kind)))
    def setghost(self, st, key, v):
        for w in self.wlogs: w.append(("ghost", key, None))
        st.ghost[key] = v

    # ---- integer operations (iN in [0,2^N))
    def wrap(self, s, n):
        if is_c(s): return s % (1 << n)
        lo = self.valid(s >= 0); hi = self.valid(s < (1 << n))
        if lo and hi: return s
        if lo:
            if self.valid(s < (2 << n)): return z3.If(s >= (1<<n), s - (1<<n), s)
            return s % (1 << n)
        if hi and self.valid(s >= -(1 << n)): return z3.If(s < 0, s + (1<<n), s)
        if self.valid(z3.And(s >= -(1 << n), s < (2 << n))): return z3.If(s < 0, s + (1<<n), z3.If(s >= (1<<n), s-(1<<n), s))
        return s % (1 << n)
    def sgn(self, x, n):
        h = 1 << (n-1)
        if is_c(x): return x - (1 << n) if x >= h else x
        if self.valid(x < h): return x
        return z3.If(x >= h, x - (1 << n), x)
    def binop(self, st, op, n, a, b, flags):
        if n == 1:
            if op == "xor":
                if b is True or (is_c(b) and b == 1): return Not(a)
                if a is True: return Not(b)
                if b is False: return a
                return z3.Xor(lift(a), lift(b))
            if op == "and": return And(a, b)
            if op == "or": return Or(a, b)
            raise Unsupported("i1 " + op)
        if isinstance(a, IntOfPtr) or isinstance(b, IntOfPtr):
            if op == "sub" and isinstance(a, IntOfPtr) and isinstance(b, IntOfPtr):
                return PtrDiff(sub(a.p.i, b.p.i))
            raise Unsupported("integer arithmetic on pointer")
        if isinstance(a, PtrDiff):
            if op in ("sdiv", "ashr"): # exact division by the element size
                d = a.d
                return self.wrap(d, n)
            raise Unsupported("arithmetic on byte distance")
        if is_c(a) and is_c(b):
            A, B = a, b
            m = (1 << n)
            if op == "add": return (A+B) % m
            if op == "sub": return (A-B) % m
            if op == "mul": return (A*B) % m
            if op == "udiv": return A//B if B else 0
            if op == "urem": return A % B if B else 0
            if op == "shl": return (A << B) % m
            if op == "lshr": return A >> B
            if op == "and": return A & B
            if op == "or": return A | B
            if op == "xor": return A ^ B
        if op == "add":
            if is_c(b) and b >= (1 << (n-1)): b = b - (1 << n)
            if is_c(a) and a >= (1 << (n-1)): a = a - (1 << n)
            return self.wrap(add(a,b), n)
        if op == "sub":
            if is_c(b) and b >= (1 << (n-1)): b = b - (1 << n)
            return self.wrap(sub(a,b), n)
        if op == "mul":
            if is_c(b) and b >= (1 << (n-1)): b = b - (1 << n)
            return self.wrap(mul(a,b), n)
        if op == "shl":
            if is_c(b): return self.wrap(mul(a, 1 << b), n)
            p = self.uf_pow2(st, b)
            return self.wrap(mul(a, p), n)
        if op == "lshr":
            if is_c(b): return idiv(a, 1 << b)
            return idiv(a, self.uf_pow2(st, b))
        if op == "udiv":
            self.oblige(st, "division by a non-zero value", Not(eqt(b,0)))
            q = idiv(a, b)
            if not is_c(b): self.assume(st, z3.And(q >= 0, q <= lift(a)))     # true of unsigned division
            return q
        if op == "urem":
            self.oblige(st, "division by a non-zero value", Not(eqt(b,0)))
            q = imod(a, b)
            if not is_c(b): self.assume(st, z3.And(q >= 0, q <= lift(a), q < lift(b)))
            return q
        if op in ("sdiv", "srem"):
            sa, sb = self.sgn(a,n), self.sgn(b,n)
            self.oblige(st, "division by a non-zero value", Not(eqt(sb,0)))
            if self.valid(le(0,sa)) and self.valid(le(0,sb)):
                return idiv(sa,sb) if op == "sdiv" else imod(sa,sb)
            A, B = lift(sa), lift(sb)
            q = z3.If(A >= 0, z3.If(B > 0, A / B, -(A / (-B))), z3.If(B > 0, -((-A) / B), (-A)/(-B)))
            return self.wrap(q if op == "sdiv" else A - q*B, n)
        if op == "ashr":
            sa = self.sgn(a,n)
            if is_c(b) and self.valid(le(0,sa)): return idiv(sa, 1 << b)
            if is_c(b): return self.wrap(lift(sa) / (1 << b), n)
            raise Unsupported("ashr")
        if op == "and":
            if is_c(a): a, b = b, a
            if is_c(b):
                if b == 0: return 0
                if b == (1<<n)-1: return a
                if (b & (b+1)) == 0: return imod(a, b+1)                 # low mask
                nb = ((1<<n)-1) ^ b
                if (nb & (nb+1)) == 0: return sub(a, imod(a, nb+1))      # high mask
                if b & (b-1) == 0:                                       # single bit
                    return mul(imod(idiv(a, b), 2), b)
                if (nb & (nb-1)) == 0:                                   # all but a single bit
                    return sub(a, mul(imod(idiv(a, nb), 2), nb))
            return self.uf_bit(st, "and", n, a, b)
        if op in ("or","xor"):
            if is_c(a): a, b = b, a
            if is_c(b):
                if b == 0: return a
                if b & (b-1) == 0:
                    bit = eqt(imod(idiv(a, b), 2), 1)
                    return ite(bit, a if op == "or" else sub(a, b), add(a, b))
                if op == "xor" and b == (1<<n)-1: return sub(b, a)
            for x, y in ((a, b), (b, a)):                               # disjoint bits: a bit put into an even number
                if not is_c(x) and z3.is_app_of(x, z3.Z3_OP_ITE) and z3.is_int_value(x.arg(1)) and z3.is_int_value(x.arg(2)) and {x.arg(1).as_long(), x.arg(2).as_long()} <= {0, 1} and self.valid(eqt(imod(y, 2), 0)): return add(y, x)
            for x, y in ((a, b), (b, a)):                               # a low half put under a high half
                k = 0 if is_c(x) or is_c(y) else halfshift(x)
                if k and self.valid(z3.And(0 <= lift(y), lift(y) < (1 << k))): return add(x, y)
            return self.uf_bit(st, op, n, a, b)
        raise Unsupported("binop " + op)
    def uf_pow2(self, st, b):
        f = z3.Function("pow2", IntS, IntS); t = f(lift(b)); self.assume(st, t >= 1)
        self.assume(st, Implies(eqt(b,0), t == 1))
        return t
    def uf_bit(self, st, op, n, a, b):
        f = z3.Function(f"bit{op}{n}", IntS, IntS, IntS); t = f(lift(a), lift(b))
        self.assume(st, z3.And(t >= 0, t < (1 << n)))
        if op == "and": self.assume(st, z3.And(t <= lift(a), t <= lift(b)))
        if op == "or": self.assume(st, z3.And(t >= lift(a), t >= lift(b)))
        return t
    def icmp(self, st, pred, ty, a, b):
        r = self.lay.resolve(ty)
        if r.k == "ptr":
            if pred == "eq": return peq(a,b)
            if pred == "ne": return Not(peq(a,b))
            x, y = a.i, b.i
            op = pred[1:]
        else:
            n = r.a
            if isinstance(a, IntOfPtr) and isinstance(b, IntOfPtr) and pred in ("eq", "ne"): e = peq(a.p, b.p); return e if pred == "eq" else Not(e)
            if isinstance(a, IntOfPtr) and is_c(b) and b == 0 and pred in ("eq", "ne"): e = peq(a.p, NULL); return e if pred == "eq" else Not(e)
            if isinstance(a, PtrDiff) or isinstance(b, PtrDiff):
                if is_c(b) and b == 0 and isinstance(a, PtrDiff):
                    if pred == "eq": return eqt(a.d,0)
                    if pred == "ne": return Not(eqt(a.d,0))
                raise Unsupported("comparison of byte distance")
            if n == 1:
                e = a == b if isinstance(a,bool) and isinstance(b,bool) else lift(bool(a) if is_c(a) else a) == lift(bool(b) if is_c(b) else b)
                if pred == "eq": return e
                if pred == "ne": return Not(e)
                raise Unsupported("i1 order")
            # (c ? k1 : k2) against a constant
            if is_c(b) and not is_c(a) and z3.is_app_of(a, z3.Z3_OP_ITE) and z3.is_int_value(a.arg(1)) and z3.is_int_value(a.arg(2)) and pred in ("eq","ne"):
                c, k1, k2 = a.arg(0), a.arg(1).as_long(), a.arg(2).as_long()
                e = Or(And(c, k1 == b), And(Not(c), k2 == b))
                return e if pred == "eq" else Not(e)
            if pred == "eq": return eqt(a,b)
            if pred == "ne": return Not(eqt(a,b))
            if pred[0] == "s": x, y = self.sgn(a,n), self.sgn(b,n)
            else: x, y = a, b
            op = pred[1:]
        if op == "lt": return lt(x,y)
        if op == "le": return le(x,y)
        if op == "gt": return lt(y,x)
        if op == "ge": return le(y,x)
        raise Unsupported("icmp " + pred)

    # ---- operands
    def val(self, st, op, ty):
        k = op[0]
        if k == "lv":
            if op[1] not in st.env: raise Unsupported("undefined value %" + op[1])
            return st.env[op[1]]
        if k == "int":
            r = self.lay.resolve(ty)
            if r.a == 1: return bool(op[1])
            return op[1] % (1 << r.a)
        if k == "null": return NULL
        if k == "undef": return self.fresh_val(st, ty, "undef")
        if k == "zero":
            r = self.lay.resolve(ty)
            if r.k == "int": return 0 if r.a != 1 else False
            if r.k == "ptr": return NULL
            if r.k == "struct": return [self.val(st, op, e) for e in r.a]
            raise Unsupported("zeroinitializer")
        if k == "gv": return self.gptr(op[1])
        if k == "fp":
            return fpconst(op[1])
        if k == "cgep":
            base = self.val(st, op[2][0][1], ir.Ty("ptr"))
            return self.gep(st, op[1], base, [x[1] for x in op[2][1:]], [x[0] for x in op[2][1:]], "")
        if k == "agg": return [self.val(st, e[1], e[0]) for e in op[1]]
        raise Unsupported("operand " + str(op))
    def gptr(self, name):
        if name not in self.gconst: self.gconst[name] = -1000000 - len(self.gconst)
        return PtrV(self.gconst[name], 0, 0)
    def gep(self, st, bt, p, idxs, itys, name):
        i0 = self.val(st, idxs[0], itys[0])
        n0 = self.lay.resolve(itys[0]).a
        r, o, i = p.r, p.o, p.i
        b = self.lay.resolve(bt)
        s0 = self.sgn(i0, n0)
        if b.k == "int" and b.a == 8 and "sroa_idx" in name:
            if not is_c(s0): raise Unsupported("byte gep")
            return PtrV(r, add(o, s0), i)
        if b.k == "int" and b.a == 8 and self.byteidx != 1:
            S = self.byteidx
            if is_c(s0):
                if s0 % S == 0: return PtrV(r, o, add(i, s0//S))
                return PtrV(r, add(o, s0), i)
            self.oblige(st, "byte offset is a multiple of the entry size", eqt(imod(s0, S), 0))
            return PtrV(r, o, add(i, self.exdiv(s0, S)))
        i = add(i, s0)
        t = bt
        for k in range(1, len(idxs)):
            rt = self.lay.resolve(t)
            v = self.val(st, idxs[k], itys[k])
            if rt.k == "struct":
                off, t = self.lay.field_off(rt, v); o = add(o, off)
            elif rt.k == "arr":
                if not (is_c(i) and i == 0) and not self.valid(eqt(i,0)): raise Unsupported("array inside an element of an array")
                i = self.sgn(v, self.lay.resolve(itys[k]).a); t = rt.b
            else: raise Unsupported("gep into scalar")
        return PtrV(r, o, i)
    def exdiv(self, x, S):
        """x known to be a multiple of S"""
        y = idiv(x, S)
        return y

    # ---- instructions
    def step(self, st, ins):
        op = ins.op
        E = st.env
        if op in ir.BINOPS:
            r = self.lay.resolve(ins.ty)
            a = self.val(st, ins.args[0], ins.ty); b = self.val(st, ins.args[1], ins.ty)
            if r.k == "fp":
                if op in ("fadd", "fmul") and str(b) < str(a): a, b = b, a        # commutative
                E[ins.res] = z3.Function(op, FpS, FpS, FpS)(a, b)
            else: E[ins.res] = self.binop(st, op, r.a, a, b, ins.extra["flags"])
        elif op == "fneg": E[ins.res] = z3.Function("fneg", FpS, FpS)(self.val(st, ins.args[0], ins.ty))
        elif op == "icmp": E[ins.res] = self.icmp(st, ins.extra["pred"], ins.ty, self.val(st, ins.args[0], ins.ty), self.val(st, ins.args[1], ins.ty))
        elif op == "fcmp": E[ins.res] = fcmp(ins.extra["pred"], self.val(st, ins.args[0], ins.ty), self.val(st, ins.args[1], ins.ty))
        elif op in ir.CASTS: E[ins.res] = self.cast(st, ins)
        elif op == "load":
            p = self.val(st, ins.args[0], ir.Ty("ptr")); r = self.lay.resolve(ins.ty)
            kind = kind_of(ins.ty, self.lay)
            self.access(st, kind, p, "read")
            v = self.read(st, kind, p)
            if r.k == "int" and r.a == 1: v = self.tobool(v)
            E[ins.res] = v
        elif op == "store":
            p = self.val(st, ins.args[1], ir.Ty("ptr")); v = self.val(st, ins.args[0], ins.ty)
            kind = kind_of(ins.ty, self.lay)
            self.access(st, kind, p, "write")
            self.write(st, kind, p, v)
        elif op == "alloca":
            if ins.args: raise Unsupported("variable alloca")
            key = ("alloca", ins.res)
            if key not in self.gconst: self.gconst[key] = -1000000 - len(self.gconst)
            E[ins.res] = PtrV(self.gconst[key], 0, 0)
        elif op == "getelementptr":
            p = self.val(st, ins.args[0], ir.Ty("ptr"))
            E[ins.res] = self.gep(st, ins.extra["base"], p, ins.args[1:], ins.extra["itys"][1:], ins.res)
        elif op == "select":
            c = self.val(st, ins.args[0], ir.Ty("int",1)); a = self.val(st, ins.args[1], ins.ty); b = self.val(st, ins.args[2], ins.ty)
            if self.lay.resolve(ins.ty).k == "fp": E[ins.res] = z3.If(lift(c), a, b)
            else: E[ins.res] = ite(c, a, b)
        elif op == "extractvalue":
            v = self.val(st, ins.args[0], ins.ty)
            for k in ins.extra["idx"]: v = v[k]
            E[ins.res] = v
        elif op == "insertvalue":
            v = ins.args[0]
            agg = self.val(st, ins.args[0], ins.ty); agg = list(agg); x = self.val(st, ins.args[1], ins.extra["ety"])
            if len(ins.extra["idx"]) != 1: raise Unsupported("nested insertvalue")
            agg[ins.extra["idx"][0]] = x; E[ins.res] = agg
        elif op == "freeze": E[ins.res] = self.val(st, ins.args[0], ins.ty)
        elif op in ("call", "invoke"): self.call(st, ins)
        else: raise Unsupported("instruction " + op)
    def access(self, st, kind, p, what):
        self.oblige_access(st, kind, p, what)
    def oblige_access(self, st, kind, p, what):
        h = getattr(self.contract, "bounds", None)
        if h is not None and not self.dry:
            for nm, g in h(self, st, kind, p, what): self.oblige(st, nm, g)
    def tobool(self, v):
        if is_c(v): return bool(v % 2)
        if z3.is_bool(v): return v
        if z3.is_app_of(v, z3.Z3_OP_ITE) and z3.is_int_value(v.arg(1)) and z3.is_int_value(v.arg(2)):
            c, k1, k2 = v.arg(0), v.arg(1).as_long() % 2, v.arg(2).as_long() % 2
            if (k1,k2) == (1,0): return c
            if (k1,k2) == (0,1): return Not(c)
            return bool(k1)
        return v % 2 == 1
    def cast(self, st, ins):
        op = ins.op; ft = self.lay.resolve(ins.extra["from"]); tt = self.lay.resolve(ins.ty)
        v = self.val(st, ins.args[0], ins.extra["from"])
        if op == "zext":
            if ft.a == 1: return ite(v, 1, 0)
            return v
        if op == "sext":
            if ft.a == 1: return ite(v, (1<<tt.a)-1, 0)
            s = self.sgn(v, ft.a)
            return self.wrap(s, tt.a) if is_c(s) else (v if s is v else z3.If(v >= (1 << (ft.a-1)), v + ((1<<tt.a)-(1<<ft.a)), v))
        if op == "trunc":
            if tt.a == 1: return self.tobool(v)
            if not is_c(v) and self.valid(v < (1 << tt.a)): return v
            return imod(v, 1 << tt.a)
        if op == "ptrtoint": return IntOfPtr(v)
        if op == "inttoptr":
            if isinstance(v, IntOfPtr): return v.p
            if is_c(v) and v == 0: return NULL
            raise Unsupported("inttoptr")
        if op in ("fptoui","fptosi"):
            n = tt.a; f = z3.Function(f"{op}{n}", FpS, IntS); t = f(v); self.assume(st, z3.And(t >= 0, t < (1<<n))); return t
        if op in ("uitofp","sitofp"):
            f = z3.Function(f"{op}{ft.a}", IntS, FpS); return f(lift(v))
        if op in ("fpext","fptrunc"): return z3.Function(op, FpS, FpS)(v)
        if op == "bitcast": return v
        raise Unsupported("cast " + op)

    # ---- calls
    def call(self, st, ins):
        c = ins.extra["callee"]
        if c[0] == "lv":
            h = getattr(self.contract, "indirect", None) or getattr(self.u, "indirect", None)
            if not h: raise Unsupported("indirect call")
            args = [self.val(st, a, t) for a, t in zip(ins.args, ins.extra["atys"])]
            r = h(self, st, ins, self.val(st, c, ir.Ty("ptr")), args)
            if ins.res: st.env[ins.res] = r
            return
        name = c[1]
        if name.startswith("llvm."):
            r = self.intrinsic(st, ins, name)
            if ins.res: st.env[ins.res] = r
            return
        args = [None if t.k == "metadata" else self.val(st, a, t) for a, t in zip(ins.args, ins.extra["atys"])]
        h = self.u.handler(name)
        if h is None:
            raise Unsupported("call to a function without contract: " + self.u.demangle(name))
        self.calls_seen[self.u.demangle(name)] = self.calls_seen.get(self.u.demangle(name), 0) + 1
        r = h(self, st, ins, args)
        if ins.res: st.env[ins.res] = r
    def intrinsic(self, st, ins, name):
        a = ins.args
        if name.startswith("llvm.memcpy") or name.startswith("llvm.memmove"):
            d = self.val(st, a[0], ir.Ty("ptr")); s = self.val(st, a[1], ir.Ty("ptr")); n = self.val(st, a[2], ir.Ty("int",64))
            self.memcpy(st, d, s, n, ins); return None
        if name.startswith("llvm.memset"):
            h = getattr(self.u, "memset", None)
            if h: return h(self, st, ins, [self.val(st, x, t) for x, t in zip(a, ins.extra["atys"])])
            raise Unsupported("memset")
        if name.startswith("llvm.assume"): return None
        if name.startswith("llvm.expect"): return self.val(st, a[0], ins.ty)
        if name.startswith("llvm.trap"): raise Unsupported("trap")
        m = re.match(r"llvm\.(umul|uadd)\.with\.overflow\.i(\d+)", name)
        if m:
            n = int(m.group(2)); x = self.val(st, a[0], ir.Ty("int",n)); y = self.val(st, a[1], ir.Ty("int",n))
            r = mul(x,y) if m.group(1)=="umul" else add(x,y)
            if is_c(r): return [r % (1<<n), r >= (1<<n)]
            if self.valid(r < (1<<n)): return [r, False]
            return [self.wrap(r,n), r >= (1<<n)]
        m = re.match(r"llvm\.(umax|umin|smax|smin)\.i(\d+)", name)
        if m:
            n = int(m.group(2)); x = self.val(st, a[0], ins.ty); y = self.val(st, a[1], ins.ty)
            sx, sy = (x,y) if m.group(1)[0]=="u" else (self.sgn(x,n), self.sgn(y,n))
            return ite(lt(sx,sy), y, x) if m.group(1).endswith("max") else ite(lt(sx,sy), x, y)
        raise Unsupported("intrinsic " + name)
    TB = {"any pointer":"ptr","vtable pointer":"ptr","long":"i64","unsigned long":"i64","int":"i32","unsigned int":"i32","bool":"i8","char":"i8","omnipotent char":"i8","short":"i16","long long":"i64","double":"fp_double","unsigned char":"i8","float":"fp_float"}
    def memcpy(self, st, d, s, n, ins):
        if is_c(s.r) and s.r < 0 and is_c(s.o) and s.o == 0 and is_c(s.i) and s.i == 0:       # a constant array of addresses
            g = self.M.globals.get(next((k for k, v in self.gconst.items() if v == s.r), ""), ""); m = re.search(r"constant \[(\d+) x ptr\] \[(.*?)\]", str(g))
            if m and is_c(n) and n == 8*int(m.group(1)):
                for k, x in enumerate(re.findall(r"ptr @([-\w$.]+)", m.group(2))): self.write(st, "ptr", PtrV(d.r, d.o, add(d.i, k)), self.gptr(x))
                return
        if not is_c(n):
            raise Unsupported("memcpy of symbolic size")
        ts = ins.extra.get("tbaastruct")
        leaves = []
        if ts:
            its = re.findall(r"i64 (\d+), i64 (\d+), (!\d+)", self.M.md[ts])
            for off, sz, tag in its:
                acc = re.findall(r"!\d+", self.M.md[tag])[1]
                nm = re.search(r'!"([^"]*)"', self.M.md[acc]).group(1)
                if nm in self.TB:
                    kind = self.TB[nm]
                    es = {"ptr":8,"i64":8,"i32":4,"i8":1,"i16":2,"fp_double":8,"fp_float":4}[kind]
                    if es != int(sz): raise Unsupported("memcpy of an array member")
                elif "_ZTS" in nm and int(sz) in (1,2,4,8): kind = "i%d" % (8*int(sz))  # enum
                else: raise Unsupported("tbaa type " + nm)
                leaves.append((int(off), kind))
        else: 
            h = getattr(self.u, "memcpy_leaves", None)
            L = h(self, n, ins, d, s) if h else None
            if L is None:
                # a single scalar copied without type information: all kinds of that width
                if n == 8: L = [(0, "i64"), (0, "ptr")]
                else: raise Unsupported(f"untyped memcpy of {n} bytes")
            leaves = L
        vals = []
        for off, kind in leaves:
            vals.append(self.read(st, kind, d.__class__(s.r, add(s.o, off), s.i)))
        for (off, kind), v in zip(leaves, vals):
            self.write(st, kind, PtrV(d.r, add(d.o, off), d.i), v)

    # ---- running
    def verify(self, fname, contract):
        """Check one function against its contract; returns the obligations."""
        f = self.M.fns[fname]; ir.parse_body(f)
        self.f = f; self.contract = contract; self.loops = Loops(f); self.mem0 = {}
        self.lite = z3.Solver(); self.lite.set("timeout", 250)
        reset_names()
        st = State()
        st.next = z3.Int("next0"); self.assume(st, st.next > 0)
        args = []
        for ty, nm, at in f.params:
            r = self.lay.resolve(ty)
            if r.k == "ptr":
                p = PtrV(z3.Int("arg_"+nm), 0, 0)
                self.assume(st, z3.And(p.r > 0, p.r < st.next)); v = p
            elif r.k == "int": v = z3.Bool("arg_"+nm) if r.a == 1 else self.ranged(st, z3.Int("arg_"+nm), r.a)
            elif r.k == "fp": v = z3.Const("arg_"+nm, FpS)
            else: raise Unsupported("parameter type " + repr(ty))
            st.env[nm] = v; args.append(v)
        self.args = args
        for x in contract.pre(self, st, args) or []: self.assume(st, x)
        self.pre = st.copy()
        # vacuity: the precondition must be satisfiable as far as the quantifier-free part and e-matching can tell
        s = _mk(4.0); s.add(*st.facts); r = s.check()
        self.covers.append(("precondition satisfiable", r != z3.unsat))
        if r == z3.unsat: self.obls.append(Obl("precondition is not contradictory", False, "unsat", 0, "the precondition is contradictory"))
        self.exits = 0
        self.run(st, f.entry, None)
        self.covers.append(("an exit is reached", self.exits > 0))
        if not self.exits: self.obls.append(Obl("some exit is reachable", False, "vacuous", 0, "no path reaches the end of the function"))
        return self.obls

    def run(self, st, block, prev):
        """Execute from the start of block; DFS over branches."""
        while True:
            self.check_deadline()
            # leaving loops
            if any(block not in body for body in self.dry): 
                self.on_dry_exit(st, block); return
            if block in self.loops.headers:
                lv = next((a for a in reversed(self.active) if a["h"] == block), None)
                if lv is not None:
                    # is this loop still the one we are inside (not left meanwhile)?
                    self.phis(st, block, prev)
                    lv["back"](st); return
                self.phis(st, block, prev)
                self.enter_loop(st, block); return
            self.phis(st, block, prev)
            nxt = self.body(st, block)
            if nxt is None: return
            prev, block = block, nxt

    def phis(self, st, block, prev):
        new = {}
        for ins in self.f.blocks[block]:
            if ins.op != "phi": break
            for v, b in ins.extra["inc"]:
                if b == prev: new[ins.res] = self.val(st, v, ins.ty); break
            else: raise Unsupported("phi without edge")
        st.env.update(new)

    def jump(self, st, block, nxts):
        """nxts: list of (cond, target). Returns the single continuation or explores all and returns None"""
        feas = [(c, t) for c, t in nxts if self.feasible(c)]
        if not feas: return None
        if len(feas) == 1:
            self.assume(st, feas[0][0]); st.trace.append(feas[0][1]); return feas[0][1]
        for c, t in feas:
            s2 = st.copy(); self.lite.push()
            act = list(self.active)
            self.assume(s2, c); s2.trace.append(t)
            self.run(s2, t, block)
            self.active = act
            self.lite.pop()
        return None

    def body(self, st, block):
        for ins in self.f.blocks[block]:
            op = ins.op
            if op == "phi": continue
            if op == "br":
                if not ins.args: return ins.extra["to"][0]
                c = self.val(st, ins.args[0], ir.Ty("int",1)); a, b = ins.extra["to"]
                if c is True: return a
                if c is False: return b
                c = z3.simplify(c)
                if z3.is_true(c): return a
                if z3.is_false(c): return b
                return self.jump(st, block, [(c, a), (Not(c), b)])
            if op == "switch":
                v = self.val(st, ins.args[0], ins.ty); n = self.lay.resolve(ins.ty).a
                cs = [(eqt(v, k % (1<<n)), t) for k, t in ins.extra["cases"]]
                d = And(*[Not(c) for c, _ in cs])
                opts = []
                for c, t in cs + [(d, ins.extra["default"])]:
                    if not isinstance(c, bool):
                        c = z3.simplify(c); c = True if z3.is_true(c) else False if z3.is_false(c) else c
                    if c is False: continue
                    opts.append((c, t))
                return self.jump(st, block, opts)
            if op == "ret":
                v = self.val(st, ins.args[0], ins.ty) if ins.args else None
                self.finish(st, v); return None
            if op == "unreachable": 
                h = getattr(self.contract, "unreachable", None)
                if h: h(self, st)
                return None
            if op == "resume" or op == "landingpad": return None
            if op == "invoke":
                self.step(st, ins); return ins.extra["to"][0]
            self.step(st, ins)
            if st.ghost.get("dead"):
                return None
        raise Unsupported("block without terminator")

    def finish(self, st, v):
        self.paths += 1
        if self.dry: return
        self.exits += 1
        for x in self.contract.post(self, self.pre, st, self.args, v) or []:
            self.oblige(st, x[0], x[1])
    def thrown(self, st, what):
        """exceptional exit"""
        st.ghost["dead"] = True
        if self.dry: return
        h = getattr(self.contract, "on_throw", None)
        if h:
            self.exits += 1
            for x in h(self, self.pre, st, self.args, what) or []: self.oblige(st, x[0], x[1])
        else:
            self.oblige(st, "no exception is thrown (%s)" % what, False)

    # ---- loops
    def on_dry_exit(self, st, block): pass

    def loop_variant(self, t, c0):
        if t is None: return True
        if is_c(t): return False
        stck = [t]; seen = set()
        while stck:
            x = stck.pop()
            if x.get_id() in seen: continue
            seen.add(x.get_id())
            if z3.is_const(x) and x.decl().kind() == z3.Z3_OP_UNINTERPRETED:
                nm = x.decl().name()
                if "!" in nm and int(nm.rsplit("!",1)[1]) > c0: return True
            stck.extend(x.children())
        return False

    def scale(self, L, nm, ty):
        f = getattr(self.contract, "scale", None)
        return f(self, L, nm) if f and repr(ty) == "i64" else 1
    def havoc_loop(self, st, header, W, L):
        for ins in self.f.blocks[header]:
            if ins.op != "phi": break
            sc = self.scale(L, ins.res, ins.ty)
            v = self.fresh_val(st, ins.ty, ins.res.replace("!", "_"))
            if sc > 1: self.assume(st, sc*v < 2**64); v = v*sc       # a multiple: checked on entry and back edges ("multiple of")
            st.env[ins.res] = v
        nx = fresh("next", IntS); self.assume(st, nx >= lift(st.next)); st.next = nx
        kinds = {k for k, r, o in W if r is None and k != "ghost"}
        for k in kinds: 
            old = self.memnode(st, k)
            self.havoc_kind(st, k)
        for k, r, o in W:
            if k == "ghost": 
                old = st.ghost.get(r); 
                if old is None: continue
                if isinstance(old, PtrV): st.ghost[r] = ptr_of_term(fresh("g", PtrD))
                else: st.ghost[r] = fresh("g_"+str(r), lift(old).sort())
            elif k not in kinds: self.havoc_row(st, k, r, o)
        return st

    def enter_loop(self, st, header):
        body = self.loops.headers[header]
        # drop active loops that do not contain this block
        saved_active = list(self.active)
        self.active = [a for a in self.active if header in self.loops.headers[a["h"]]]
        phis = [(i.res, i.ty) for i in self.f.blocks[header] if i.op == "phi"]
        L = LoopCtx(header, phis, st.copy(), self.pre, [a["L"] for a in self.active], body)
        self.nestlevel = len(self.active)
        c0 = _ctr_now()
        W = []; Wset = set()
        cont = self.contract
        def cands(s):
            out = []
            for nm, f in (cont.invs(self, L, s) or []):
                out.append((nm, f))
            # builtin frame for kinds havocked as a whole
            for k in sorted({k for k, r, o in W if r is None and k != "ghost"}):
                b = z3.Const("fb", Blk)
                known = [Blk.mkblk(lift(r), lift(o)) for kk, r, o in W if kk == k and r is not None]
                m0 = self.memterm(L.entry, k); m1 = self.memterm(s, k)
                out.append(("frame:old objects "+k, z3.ForAll([b], z3.Implies(z3.And(Blk.root(b) < lift(L.entry.next), *[b != x for x in known]), z3.Select(m1,b) == z3.Select(m0,b)), patterns=[z3.Select(m1,b)] if z3.is_const(m1) else [])))
            out.append(("next grows", le(L.entry.next, s.next)))
            for nm, ty in phis:
                sc = self.scale(L, nm, ty)
                if sc > 1: out.append((f"{nm} is a multiple of {sc}", eqt(imod(s.env[nm], sc), 0)))
            return out
        t_entry = None
        good = None
        rounds = 0
        lkey = (header, tuple(st.trace), tuple(a["h"] for a in self.active))
        entry_known = {n: False for n in self.dropped.get(lkey, ())}     # dropped under stronger assumptions before: stays dropped
        while True:
            rounds += 1
            if rounds > 60: raise Unsupported("loop analysis did not settle")
            # 1. candidates true on entry
            ent = cands(L.entry)
            names = [n for n, f in ent]
            newn = [(n,f) for n,f in ent if n not in entry_known]
            if newn:
                if len(newn) > 1 and self.hprove(L.entry, And(*[f for _, f in newn]), False):
                    for n, f in newn: entry_known[n] = True
                else:
                    for n, f in newn:
                        entry_known[n] = self.hprove(L.entry, f)
                        if not entry_known[n] and self.last_fail == "timeout": self.tdrops.add(n)
                        if not entry_known[n] and os.environ.get("VCG_VV"): print("   NOTATENTRY", header, n)
            alive = [n for n in names if entry_known[n] and (good is None or n in good or n not in ever)]
            if good is None: ever = set()
            ever = set(names) if good is None else ever | set(names)
            good = alive
            # 2. run the body under them
            self.lite.push()
            s = st.copy()
            self.havoc_loop(s, header, W, L); L.hdr = {nm: s.env[nm] for nm, _ in phis}
            cs = dict(cands(s))
            for n in good: self.assume(s, cs[n])
            log = []; self.wlogs.append(log)
            backs = []
            self.dry.append(body)
            sa = list(self.active)
            def back(sb):
                fails = []
                cb = dict(cands(sb))
                todo = [n for n in back.alive]
                if len(todo) > 1 and self.hprove(sb, And(*[cb[n] for n in todo]), False): return
                for n in todo:
                    if not self.hprove(sb, cb[n]):
                        back.alive.remove(n)
                        if self.last_fail == "timeout": self.tdrops.add(n)
                        if os.environ.get("VCG_VV"): print("   DROP", header, n, sb.trace[-6:])
            back.alive = list(good)
            hdr_state = s.copy()
            self.active.append({"h": header, "back": back, "L": L})
            if not self.inconsistent():
                nxt = self.body(s, header)
                if nxt is not None: self.run(s, nxt, header)
            self.active = sa
            self.dry.pop(); self.wlogs.pop()
            self.lite.pop()
            # 3. writes not yet havocked?
            grew = False
            for k, r, o in log:
                if k == "ghost": e = ("ghost", r, None); key = e
                elif r is None or self.loop_variant(r, c0) or self.loop_variant(o, c0): e = (k, None, None); key = e
                else: e = (k, r, o); key = (k, str(r), str(o))
                if (k, None, None) in Wset: 
                    # whole kind havocked already; still remember known rows for the frame
                    if key in Wset: continue
                if key not in Wset: Wset.add(key); W.append(e); grew = True
            for a in self.wlogs: a.extend(log)
            if grew: 
                # candidates dropped under a too small havoc set stay valid to drop? no: retry all
                good = None; continue
            if set(back.alive) == set(good): break
            good = back.alive
            for n in list(entry_known):
                if n not in good: entry_known[n] = False
        self.dropped[lkey] = {n for n in ever if n not in good}
        for nm, ty in phis:
            if self.scale(L, nm, ty) > 1 and f"{nm} is a multiple of {self.scale(L, nm, ty)}" not in good: raise Unsupported(f"{nm} is not kept a multiple of {self.scale(L, nm, ty)}")
        if not self.dry:
            for n in good: self.obls.append(Obl(f"loop invariant holds on entry and is kept: {n}", True, "z3", 0))
        if os.environ.get("VCG_V") : print("  "*len(self.active)+"loop", header, "kept", good, "dropped", [n for n in ever if n not in good], flush=True)
        # final pass: exits continue
        self.havoc_loop(st, header, W, L); L.hdr = {nm: st.env[nm] for nm, _ in phis}
        cs = dict(cands(st))
        for n in good: self.assume(st, cs[n])
        sa = list(self.active)
        self.active.append({"h": header, "back": lambda sb: None, "L": L})
        if not self.inconsistent():
            nxt = self.body(st, header)
            if nxt is not None: self.run(st, nxt, header)
        self.active = saved_active

    def hprove(self, st, f, single=True):
        """query used while filtering invariant candidates"""
        if f is True: return True
        if f is False: f = z3.BoolVal(False)
        self.check_deadline()
        self.houdini_queries += 1
        for g in split_goal(f):
            for g2, ef in self.prep(st, g):
                r = prove(st.facts + ef, g2, min(self.timeout, 4.0))
                if r[0] == "timeout" and single and self.retries < 8:
                    self.retries += 1; r = prove(st.facts + ef, g2, 15.0)
                if r[0] != "ok":
                    if os.environ.get("VCG_VV") == "2": print("    failed", r[0], str(g2)[:400])
                    if os.environ.get("VCG_DUMPD"): s = z3.Solver(); s.add(*(st.facts + ef)); s.add(z3.Not(g2)); self.dumps = getattr(self, "dumps", 0) + 1; open(f'{os.environ["VCG_DUMPD"]}{self.dumps}.smt2', "w").write(s.to_smt2())
                    self.last_fail = r[0]
                    return False
        return True

def _ctr_now():
    from . import sym
    return sym._ctr[0]
