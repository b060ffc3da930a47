"""Contracts for CliParser (C02)."""
from .strs import *
from .vec import VecLib
from vcg.unit import Unit
SAW = z3.Function("saw_dash", IntS, B); CD = z3.Function("n_direct", IntS, IntS); CO = z3.Function("n_options", IntS, IntS)
OPT = z3.Function("option_token", IntS, IntS); DIR = z3.Function("direct_token", IntS, IntS); POS = z3.Function("pos", IntS, IntS); TXT = z3.Function("ctext", PtrD, IntS)
KEEP = z3.Function('keep', IntS, B)
def slot_of(ex, callee, f=None):
    """(slot) of a call through a virtual table: load [gep] of the table pointer"""
    f = f or ex.f; defs = getattr(f, "_defs", None)
    if defs is None: defs = f._defs = {i.res: i for b in f.order for i in f.blocks[b] if i.res}
    ld = defs.get(callee)
    if ld is None or ld.op != "load" or ld.args[0][0] != "lv": raise Unsupported("indirect call")
    g = defs.get(ld.args[0][1])
    if g is not None and g.op == "load": return 0
    if g is None or g.op != "getelementptr" or g.args[1][0] != "int": raise Unsupported("indirect call")
    return g.args[1][1]
def slot(ex, name):
    f = ex.M.fns["slot_" + name]; ir.parse_body(f)
    for b in f.order:
        for i in f.blocks[b]:
            if i.op in ("call", "invoke") and i.extra["callee"][0] == "lv": return slot_of(ex, i.extra["callee"][1], f)
    raise Unsupported("no virtual call in slot_" + name)

class PC(Contract):
    def fields(self, ex, st, p): return VecLib.fields(ex, st, p)
    def setvec(self, ex, st, p, pre):
        b, n, c = z3.Ints(f"{pre}_root {pre}_n {pre}_cap"); self.lastrow = ex.havoc_row(st, "i64" if pre != "pv" else "ptr", b, 0, pre + "_row"); ex.write(st, "ptr", p, PtrV(b, 0, 0)); ex.write(st, "i64", p.at(8), n); ex.write(st, "i64", p.at(16), c)
        return b, n, [0 <= n, n <= c, c < 2**56, b >= 0, b < st.next, (b == 0) == (c == 0)]
    def apart(self, args, *roots): return [lift(x.r) != lift(y.r) for i, x in enumerate(args) for y in args[:i] if isinstance(x, PtrV) and isinstance(y, PtrV)] + [lift(r) != lift(a.r) for r in roots for a in args if isinstance(a, PtrV)]
    def dash(self, ex, t): return z3.Select(z3.Select(z3.Const("mem0_i8", memsort("i8")), Blk.mkblk(CHBASE - t, z3.IntVal(0))), 0) == 45
    def wfptr(self, ex, st, p):
        """parameters are objects of the actions, apart from everything the parser owns"""
        row = getattr(self, "params", None)
        if row is not None and not is_c(p.r) and z3.is_app(p.r) and p.r.decl().eq(PtrD.pr) and z3.is_select(p.r.arg(0)) and p.r.arg(0).arg(0).eq(row): ex.assume(st, z3.And(p.r < -9000000, p.r > -10000000)); return True
    def pname(self, ex, st, k):
        t = self.params[k]; p = ptr_of_term(t); self.wfptr(ex, st, p); return lift(ex.read(st, "i64", evalfn(ex, st, "specp_name", [p])))
    def locals_(self, ex, st):
        out = []
        for b in ex.f.order:
            for i in ex.f.blocks[b]:
                if i.op == "alloca" and i.res in st.env and "std::vector" in repr(i.ty): out.append((i.res, st.env[i.res]))
        return out
class Parse(PC):
    def pre(self, ex, st, args):
        self.p, self.cl = args[0], args[1]; b, n, f = self.setvec(ex, st, args[1], "cl"); out = f + self.apart(args, b)
        t = self.t = ex.row(st, "i64", b, 0); self.n = n; self.b = b; i = z3.Int("ci"); ne = lambda x: t[x] != 0; ex.memnode(st, "i8")
        d = lambda x: z3.And(ne(x), self.dash(ex, t[x]))
        out += [z3.ForAll([i], z3.And(t[i] >= 0, t[i] < 2**64, SLEN(t[i]) >= 0, (SLEN(t[i]) == 0) == (t[i] == 0)), patterns=[t[i]]),
                # definitions: tokens before and from the first dash on, among the tokens 1..i-1
                z3.Not(SAW(1)), CD(1) == 0, CO(1) == 0,
                z3.ForAll([i], z3.Implies(i >= 1, SAW(i+1) == z3.Or(SAW(i), d(i))), patterns=[SAW(i+1)]),
                z3.ForAll([i], z3.Implies(i >= 1, z3.And(CD(i+1) == CD(i) + z3.If(z3.And(ne(i), z3.Not(SAW(i+1))), 1, 0), z3.Implies(z3.And(ne(i), z3.Not(SAW(i+1))), DIR(CD(i)) == t[i]))), patterns=[CD(i+1)]),
                z3.ForAll([i], z3.Implies(i >= 1, z3.And(CO(i+1) == CO(i) + z3.If(z3.And(ne(i), SAW(i+1)), 1, 0), z3.Implies(z3.And(ne(i), SAW(i+1)), OPT(CO(i)) == t[i]))), patterns=[CO(i+1)])]
        M = CO(z3.If(n > 1, n, 1)); self.Mo = M; self.Md = CD(z3.If(n > 1, n, 1)); e = z3.Int("ce")
        self.takes = lambda x: z3.And(x+1 < M, z3.Not(self.dash(ex, OPT(x+1))))
        out += [POS(0) == 0, z3.ForAll([e], z3.Implies(e >= 0, POS(e+1) == POS(e) + z3.If(self.takes(POS(e)), 2, 1)), patterns=[POS(e+1)])]
        for g in ("act", "dopt", "ev"): st.ghost[g] = z3.IntVal(0)
        self.params = None
        return out
    def extra_facts(self, ex, st, g, sk):
        return [KEEP(OPT(POS(st.ghost["ev"]) + 1)), KEEP(POS(st.ghost["ev"]+1))] + [KEEP(f(x)) for x in self.idx(ex, st) for f in (CO, CD)] + [z3.Or(SAW(x), True) for x in self.idx(ex, st)]
    def idx(self, ex, st):
        out = []
        for nm, v in st.env.items():
            if z3.is_expr(v) and z3.is_int(v) and any(i.op == "phi" and i.res == nm for b in ex.loops.headers for i in ex.f.blocks[b]): out += [v, v+1]
        return out
    def invs(self, ex, L, st):
        out = [("next parameter of the command line", z3.And(*[st.ghost[g] >= 0 for g in ("act", "dopt", "ev")]))]
        for g in ("act", "dopt", "ev"): out.append((f"{g} unchanged", st.ghost[g] == L.entry.ghost[g]))
        b0, n0, c0 = self.fields(ex, st, self.cl); out.append(("command line untouched", And(eqt(b0.r, self.b), eqt(n0, self.n), ex.row(st, "i64", self.b, 0) == self.t)))
        out.append(("event positions", z3.And(POS(st.ghost["ev"]) >= 0)))
        vs = self.locals_(ex, st)
        for nm, p in vs:
            if ("alloca", nm) not in ex.gconst: continue
            b, n, c = self.fields(ex, st, p); row = ex.row(st, "i64", b.r, 0)
            out.append((f"{nm} storage", And(eqt(b.o, 0), eqt(b.i, 0), le(0, n), le(n, c), lt(c, 2**60), Implies(eqt(b.r, 0), eqt(c, 0)), le(0, b.r), lt(b.r, st.next), Or(eqt(b.r, self.fields(ex, L.entry, p)[0].r), le(L.entry.next, b.r)))))
            for m2, p2 in vs:
                if m2 < nm: b2 = self.fields(ex, st, p2)[0]; out.append((f"{nm} apart from {m2}", Or(eqt(b.r, 0), Not(eqt(b.r, b2.r)))))
        for x, v in phis_of(L, st, "i64").items():
            k = lift(v); q = z3.Int("cq")
            out += [(f"{x} in command line", z3.And(1 <= k, k <= z3.If(self.n > 1, self.n, 1))), (f"option tokens before {x} are not empty", z3.ForAll([q], z3.Implies(z3.And(0 <= q, q < CO(k)), z3.And(OPT(q) != 0, SLEN(OPT(q)) >= 1)), patterns=[OPT(q)])), (f"{x} counts", z3.And(CD(k) >= 0, CO(k) >= 0, CD(k) + CO(k) < k)), (f"{x} is the position of the next option", k == POS(st.ghost["ev"])), (f"{x} within options", k <= self.Mo)]
            for y in list(phis_of(L, st, "i8")) + list(phis_of(L, st, "i1")):
                yv = st.env[y]; yb = lift(yv) if not is_c(yv) and z3.is_bool(yv) else ex.tobool(yv) if not isinstance(yv, bool) else z3.BoolVal(yv); out.append((f"{y} tells whether a dash was seen before {x}", lift(yb) == SAW(k))); 
                if not (isinstance(yv, bool)) and z3.is_int(lift(yv)): out.append((f"{y} is a truth value", z3.And(lift(yv) >= 0, lift(yv) <= 1)))
            for nm, p in vs:
                if ("alloca", nm) not in ex.gconst: continue
                b, n, c = self.fields(ex, st, p); row = ex.row(st, "i64", b.r, 0)
                for F, TK, what in ((CD, DIR, "direct"), (CO, OPT, "option")):
                    out.append((f"{nm} has the {what} tokens before {x}", lift(n) == F(k)))
                    out.append((f"entries of {nm} are the {what} tokens", z3.ForAll([q], z3.Implies(z3.And(0 <= q, q < lift(n)), row[q] == TK(q)), patterns=[row[q]])))
        for x, p in phis_of(L, st, "ptr").items():
            if self.params is not None and "r" in st.ghost:
                q = z3.Int("cq"); out += [(f"{x} among the parameters", And(eqt(p.r, self.pb), eqt(p.o, 0), le(0, p.i), le(p.i, self.np))), (f"no parameter before {x} has the name", z3.ForAll([q], z3.Implies(z3.And(0 <= q, q < lift(p.i)), self.pnameq(ex, q) != st.ghost["r"]), patterns=[self.params[q]]))]
        return out
    def pnameq(self, ex, q):
        """the name of parameter q (in the memory the parser was called with: nothing writes to parameters)"""
        t = self.params[q]; off = evalfn(ex, ex.pre, "specp_name", [PtrV(PtrD.pr(t), PtrD.po(t), PtrD.pi(t))])
        return z3.Select(z3.Select(z3.Const("mem0_i64", memsort("i64")), Blk.mkblk(lift(off.r), lift(off.o))), lift(off.i))
    def indirect(self, ex, st, ins, fn, args):
        s = slot_of(ex, ins.extra["callee"][1]); n = len(args); ev = st.ghost["ev"]
        if n == 2 and "act" in st.ghost and ex.valid(eqt(args[0].r, self.action)) and s == slot(ex, "pushBackParameters"):
            b, m, c = self.fields(ex, st, args[1]); ex.oblige(st, "parameters are asked for once", And(self.params is None, eqt(m, 0)))
            r = ex.alloc(st); self.params = ex.havoc_row(st, "ptr", r.r, 0); self.pb = r.r; self.np = fresh("np", IntS); cap = fresh("pcap", IntS); self.pvec = args[1]
            ex.assume(st, [self.np >= 0, self.np <= cap, cap < 2**60]); ex.write(st, "ptr", args[1], r); ex.write(st, "i64", args[1].at(8), self.np); ex.write(st, "i64", args[1].at(16), cap); return None
        if n == 3 and s == slot(ex, "directOptions"):
            ex.oblige(st, "the action that was created gets the tokens", And(eqt(args[0].r, self.action), peq(args[2], self.p))); b, m, c = self.fields(ex, st, args[1]); row = ex.row(st, "i64", b.r, b.o); q = z3.Int("dq")
            ex.oblige(st, "the action gets as many tokens as there are non-empty ones before the first dash", lift(m) == self.Md)
            ex.oblige(st, "and they are those, in order", z3.ForAll([q], z3.Implies(z3.And(0 <= q, q < self.Md), row[q] == DIR(q)), patterns=[row[q]]))
            ex.oblige(st, "the action gets its tokens once and before any option", And(st.ghost["dopt"] == 0, ev == 0)); ex.setghost(st, "dopt", st.ghost["dopt"] + 1); return None
        if n == 2 and s == slot(ex, "processArgument"):
            pos = POS(ev); a = lift(ex.read(st, "i64", args[1])); tok = OPT(pos); nm = lift(ex.read(st, "i64", evalfn(ex, st, "specp_name", [args[0]])))
            ex.oblige(st, "options come after the action's own tokens", st.ghost["dopt"] == 1)
            ex.oblige(st, "there is an option token left", pos < self.Mo); ex.oblige(st, "it starts with a dash", self.dash(ex, tok))
            ex.oblige(st, "the parameter it resolves to gets the argument", And(st.ghost.get("r") is not None, nm == st.ghost["r"], st.ghost["rkey"] == sub_(ex, st, tok, 1, slen(ex, st, tok))))
            ex.oblige(st, "the argument is the next token unless that starts with a dash", a == z3.If(self.takes(pos), OPT(pos+1), 0))
            ex.setghost(st, "ev", ev + 1); return None
        raise Unsupported("virtual call")
    def post(self, ex, old, st, args, ret):
        r = ex.read(st, "ptr", args[2]); return [("the created action is returned", eqt(r.r, self.action)), ("its tokens were handed over", st.ghost["dopt"] == 1), ("every token was consumed", POS(st.ghost["ev"]) == self.Mo)]
    def on_throw(self, ex, old, st, args, what):
        if "UnknownName" in what: return [("unknown name: only for an empty line", self.n == 0)]
        if "Internal" in what: return [("no internal error", False)]
        pos = POS(st.ghost["ev"]); return [("an error only where an option was expected", z3.And(pos < self.Mo, z3.Not(self.dash(ex, OPT(pos)))))]
def h_create(ex, st, ins, args):
    C = ex.contract; out, p, name = args
    if isinstance(C, Parse):
        ex.oblige(st, "the action is looked up by the first token", And(peq(p, C.p), lt(0, C.n), lift(ex.read(st, "i64", name)) == C.t[0])); ex.oblige(st, "one action is created", st.ghost["act"] == 0)
        C.action = z3.Int("action_root"); ex.assume(st, [C.action < -11000000, C.action > -12000000]); ex.write(st, "ptr", out, PtrV(C.action, 0, 0)); ex.setghost(st, "act", st.ghost["act"] + 1)
    else: raise Unsupported("creating an action here")
def h_make(ex, st, ins, args):
    C = ex.contract; out, v = args
    if not isinstance(C, Parse): raise Unsupported("registry")
    b, n, c = C.fields(ex, st, v); row = ex.row(st, "ptr", b.r, b.o); q = z3.Int("mq")
    ex.oblige(st, "the registry is made from the action's parameters", And(C.params is not None, eqt(n, C.np), z3.ForAll([q], z3.Implies(z3.And(0 <= q, q < C.np), row[q] == C.params[q]), patterns=[row[q]])))
    C.registry = out
def h_lookup(ex, st, ins, args):
    """uniqueNameWithPrefix (C01): one of the registered names, here the parameters' names"""
    C = ex.contract; out, f, p = args; ex.oblige(st, "the option is looked up among the action's parameters", And(getattr(C, "registry", None) is not None and peq(f, C.registry)))
    k = fresh("which", IntS); r = fresh("rname", IntS); text_ok(ex, st, r); ex.assume(st, [0 <= k, k < C.np, C.pnameq(ex, k) == r, KEEP(PtrD.pr(C.params[k]))])
    ex.setghost(st, "r", r); ex.setghost(st, "rkey", lift(ex.read(st, "i64", p))); ex.write(st, "i64", out, r)
class Make(PC):
    def pre(self, ex, st, args):
        b, n, f = self.setvec(ex, st, args[0], "pv"); self.n, self.b = n, b; self.params = self.lastrow; q = z3.Int("kq"); return f + self.apart(args, b) + [z3.ForAll([q], z3.And(PtrD.pr(self.params[q]) < -9000000, PtrD.pr(self.params[q]) > -10000000), patterns=[self.params[q]])] + [lift(x.r) > -1000 for x in args]
    def reg(self, ex, st, p):
        b, n, c = VecLib.fields(ex, st, evalfn(ex, st, "specp_pairs", [p])); return b, lift(n), lift(c), ex.row(st, "i64", b.r, 0)
    pnameq = Parse.pnameq
    def invs(self, ex, L, st):
        out = []; regs = [("out", self.args_out(ex))] + [(i.res, st.env[i.res]) for b in ex.f.order for i in ex.f.blocks[b] if i.op == "alloca" and i.res in st.env and "NameFactory" in repr(i.ty)]
        for nm, p in regs:
            b, n, c, row = self.reg(ex, st, p); q = z3.Int("kq")
            out.append((f"{nm} storage", And(eqt(b.o, 0), eqt(b.i, 0), 0 <= n, n <= c, c < 2**60, Implies(eqt(b.r, 0), c == 0), le(0, b.r), lt(b.r, st.next), Or(eqt(b.r, self.reg(ex, L.entry, p)[0].r), le(L.entry.next, b.r)))))
            for x, v in phis_of(L, st, "i64").items(): out += [(f"{nm} has the names before {x}", n == lift(v)), (f"{nm} names", z3.ForAll([q], z3.Implies(z3.And(0 <= q, q < n), row[q] == self.pnameq(ex, q)), patterns=[row[q]])), (f"{x} range", And(le(0, v), le(v, self.n)))]
        for i_ in [i for b in ex.f.order for i in ex.f.blocks[b] if i.op == "alloca" and "std::vector" in repr(i.ty) and i.res in st.env]:
            b, n, c = self.fields(ex, st, st.env[i_.res]); row = ex.row(st, "ptr", b.r, 0); q = z3.Int("kq"); out.append((f"{i_.res} holds the parameters", And(eqt(n, self.n), eqt(b.o, 0), eqt(b.i, 0), z3.ForAll([q], z3.Implies(z3.And(0 <= q, q < self.n), row[q] == self.params[q]), patterns=[row[q]]))))
        return out
    def args_out(self, ex): return ex.args[1]
    def wfptr(self, ex, st, p):
        if not is_c(p.r) and z3.is_app(p.r) and p.r.decl().eq(PtrD.pr) and z3.is_select(p.r.arg(0)) and ex.valid(lift(p.r) < -9000000): return True
        return False
    def post(self, ex, old, st, args, ret):
        b, n, c, row = self.reg(ex, st, args[1]); q = z3.Int("kq"); return [("one name for each parameter", n == self.n), ("the names are those of the parameters", z3.ForAll([q], z3.Implies(z3.And(0 <= q, q < self.n), row[q] == self.pnameq(ex, q)), patterns=[row[q]]))]
class Create(PC):
    def pre(self, ex, st, args): self.done = None; return self.apart(args)
    def post(self, ex, old, st, args, ret): return [("the action is created by the registry of actions from the given prefix", And(self.done is not None, peq(self.done[0], evalfn(ex, old, "specp_actions", [args[0]])), self.done[1] == lift(ex.read(old, "i64", args[1])), peq(ex.read(st, "ptr", args[2]), self.done[2])))]
def h_cwp(ex, st, ins, args):
    C = ex.contract; out, f, p = args; r = ex.fresh_val(st, ir.Ty("ptr")); ex.write(st, "ptr", out, r); C.done = (f, lift(ex.read(st, "i64", p)), r)
class ActionNames(PC):
    def pre(self, ex, st, args): self.done = None; return self.apart(args)
    def post(self, ex, old, st, args, ret): return [("all names of actions are listed", And(self.done is not None, peq(self.done[0], evalfn(ex, old, "specp_actions", [args[0]])), self.done[1] == 0, peq(self.done[2], args[1])))]
def h_nwp(ex, st, ins, args):
    C = ex.contract; f, p, v = args; C.done = (f, lift(ex.read(st, "i64", p)), v)
class Direct(PC):
    def pre(self, ex, st, args): b, n, f = self.setvec(ex, st, args[1], "tk"); self.n = n; return f + self.apart(args, b)
    def post(self, ex, old, st, args, ret): return [("tokens are accepted only if there are none", self.n == 0)]
    def on_throw(self, ex, old, st, args, what): return [("the error is the library's exception, for tokens given", And("MathicException" in what, self.n > 0))]
class Argv(PC):
    def pre(self, ex, st, args):
        self.calls = 0; return self.apart(args) + [args[1] < 2**31]
    def post(self, ex, old, st, args, ret): return [("the line is parsed once", self.calls == 1), ("the action is the parser's", peq(ex.read(st, "ptr", args[3]), self.res))]
def h_parse(ex, st, ins, args):
    C = ex.contract; out, p, v = args; b, n, c = C.fields(ex, st, v); row = ex.row(st, "i64", b.r, 0); av = ex.row(ex.pre, "ptr", ex.args[2].r, ex.args[2].o); q = z3.Int("vq")
    ex.oblige(st, "the command line has all arguments", And(peq(p, ex.args[0]), eqt(n, ex.args[1]), z3.ForAll([q], z3.Implies(z3.And(0 <= q, q < lift(n)), row[q] == TXT(av[q])), patterns=[row[q]])))
    C.calls += 1; C.res = ex.fresh_val(st, ir.Ty("ptr")); ex.write(st, "ptr", out, C.res)
def h_vecrange(ex, st, ins, args):
    """std::vector<std::string>(first, last) from C strings"""
    p, a, e = args; ex.oblige(st, "a range is copied", And(eqt(a.r, e.r), eqt(a.o, e.o), le(a.i, e.i))); r = ex.alloc(st); row = ex.havoc_row(st, "i64", r.r, 0); src = ex.row(st, "ptr", a.r, a.o); q = z3.Int("uq")
    n = sub(e.i, a.i); cap = fresh("vcap", IntS); ex.assume(st, [cap >= lift(n), cap < 2**60, z3.ForAll([q], z3.Implies(z3.And(0 <= q, q < lift(n)), row[q] == TXT(src[q + lift(a.i)])), patterns=[row[q]])]); ex.write(st, "ptr", p, r); ex.write(st, "i64", p.at(8), n); ex.write(st, "i64", p.at(16), cap)
V = VecLib({"std::string": [(0, "i64")], "mathic::CliParameter*": [(0, "ptr")], "std::pair<std::string, std::unique_ptr<void*> (*)()>": [(0, "i64"), (8, "ptr")]})
def hs(level):
    h = STRS + V.handlers()[:3] + NEWDEL
    if level >= 1: h += [(r"mathic::uniqueNameWithPrefix<", h_lookup), (r"createWithPrefix<", h_cwp), (r"NameFactory<.*>::namesWithPrefix\(", h_nwp)]
    if level >= 2: h += [(r"makeParamNames\(", h_make), (r"CliParser::createActionWithPrefix\(", h_create)]
    if level >= 3: h += [(r"CliParser::parse\(std::vector", h_parse), (r"vector<std::string>::vector<", h_vecrange)]
    return Unit("cli.cpp", h)
def u1(): return hs(1)
def u2(): return hs(2)
def u3(): return hs(3)
JOBS = [("cli 2", u2, "d_parse", Parse), ("cli 1", u1, "d_make", Make), ("cli 1", u1, "d_create", Create), ("cli 1", u1, "d_action_names", ActionNames), ("cli 1", u1, "d_direct", Direct), ("cli 3", u3, "d_parse_argv", Argv)]
