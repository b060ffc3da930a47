"""Parser for the subset of textual LLVM 18 IR that clang emits for the units.

Anything outside the subset raises Unsupported: the function is then reported as
out of reach on this run, never silently skipped."""
import re

class Unsupported(Exception):
    pass

# ---------------------------------------------------------------- types
class Ty:
    __slots__ = ("k", "a", "b")
    def __init__(self, k, a=None, b=None): self.k, self.a, self.b = k, a, b
    def __repr__(self):
        return {"int": lambda: f"i{self.a}", "ptr": lambda: "ptr", "named": lambda: f"%{self.a}",
                "arr": lambda: f"[{self.a} x {self.b}]", "struct": lambda: "{%s}" % ", ".join(map(repr, self.a)),
                "void": lambda: "void", "fp": lambda: self.a}.get(self.k, lambda: self.k)()
    def __eq__(self, o): return repr(self) == repr(o)
    def __hash__(self): return hash(repr(self))

TOK = re.compile(r'''\s*(?:
  (?P<str>c"(?:[^"\\]|\\.)*")|
  (?P<lv>%"(?:[^"]*)"|%[-a-zA-Z$._0-9]+)|
  (?P<gv>@"(?:[^"]*)"|@[-a-zA-Z$._0-9]+)|
  (?P<md>![-a-zA-Z$._0-9]*)|
  (?P<attr>\#[0-9]+)|
  (?P<num>-?[0-9]+\.[0-9]+(?:e[-+]?[0-9]+)?|0x[0-9A-Fa-f]+|-?[0-9]+)|
  (?P<id>[a-zA-Z_$][-a-zA-Z_$.0-9]*)|
  (?P<q>"(?:[^"]*)")|
  (?P<p>\.\.\.|[][(){}<>,=*:|])
)''', re.X)

def tokenize(s):
    out, i, n = [], 0, len(s)
    while i < n:
        m = TOK.match(s, i)
        if not m:
            if s[i:].strip() == "": break
            if s[i:].lstrip().startswith(";"): break
            raise Unsupported("token: " + s[i:i+40])
        out.append((m.lastgroup, m.group(m.lastgroup)))
        i = m.end()
    return out

def unq(n):
    n = n[1:]
    return n[1:-1] if n.startswith('"') else n

class Toks:
    def __init__(self, toks): self.t, self.i = toks, 0
    def peek(self, k=0):
        return self.t[self.i+k] if self.i+k < len(self.t) else (None, None)
    def next(self):
        x = self.peek(); self.i += 1; return x
    def accept(self, v):
        if self.peek()[1] == v: self.i += 1; return True
        return False
    def expect(self, v):
        x = self.next()
        if x[1] != v: raise Unsupported(f"expected {v} got {x} in {self.t}")
    def done(self): return self.i >= len(self.t)

PARAM_ATTRS = {"dead_on_unwind", "writable", "noundef","nonnull","zeroext","signext","noalias","nocapture","readonly","writeonly","readnone",
  "returned","inreg","immarg","nofree","swiftself","nest","allocptr","nest","writable"}

def parse_type(t):
    k, v = t.next()
    if k == "id":
        if v == "void": ty = Ty("void")
        elif v == "ptr": ty = Ty("ptr")
        elif re.fullmatch(r"i\d+", v): ty = Ty("int", int(v[1:]))
        elif v in ("double", "float", "x86_fp80", "half"): ty = Ty("fp", v)
        elif v in ("label", "metadata", "token"): ty = Ty(v)
        else: raise Unsupported("type " + v)
    elif k == "lv": ty = Ty("named", unq(v))
    elif v == "[":
        n = int(t.next()[1]); t.expect("x"); e = parse_type(t); t.expect("]"); ty = Ty("arr", n, e)
    elif v == "{":
        el = []
        while not t.accept("}"):
            el.append(parse_type(t)); t.accept(",")
        ty = Ty("struct", el)
    elif v == "<":
        if t.accept("{"):
            el = []
            while not t.accept("}"):
                el.append(parse_type(t)); t.accept(",")
            t.expect(">"); ty = Ty("struct", el)
        else: raise Unsupported("vector type")
    else: raise Unsupported(f"type {v}")
    if t.peek()[1] == "(":   # function type
        d = 0
        while True:
            x = t.next()[1]
            if x == "(": d += 1
            if x == ")":
                d -= 1
                if d == 0: break
        ty = Ty("fn", ty)
    return ty

def skip_attrs(t):
    attrs = []
    while True:
        k, v = t.peek()
        if k == "id" and v in PARAM_ATTRS: t.next(); attrs.append(v)
        elif k == "id" and v in ("align", "dereferenceable", "dereferenceable_or_null", "sret", "byval", "captures", "memory", "range", "initializes"):
            t.next(); a = v
            if t.accept("("):
                d = 1; 
                while d:
                    x = t.next()[1]
                    if x == "(": d += 1
                    elif x == ")": d -= 1
            elif v == "align": t.next()
            attrs.append(a)
        else: return attrs

# operands: ('lv',name) ('gv',name) ('int',n) ('null',) ('undef',) ('fp',text) ('gep',...)
def parse_operand(t, ty):
    k, v = t.next()
    if k == "lv": return ("lv", unq(v))
    if k == "gv": return ("gv", unq(v))
    if k == "num":
        if ty.k == "fp": return ("fp", v)
        return ("int", int(v))
    if k == "id":
        if v == "true": return ("int", 1)
        if v == "false": return ("int", 0)
        if v == "null": return ("null",)
        if v in ("undef", "poison"): return ("undef",)
        if v == "zeroinitializer": return ("zero",)
        if v == "getelementptr":
            while t.peek()[1] in ("inbounds","nuw","nusw","inrange"):
                if t.next()[1] == "inrange":
                    t.expect("(")
                    while not t.accept(")"): t.next()
            t.expect("(")
            bt = parse_type(t); t.expect(",")
            parts = []
            while True:
                t.accept("inrange"); pt = parse_type(t); skip_attrs(t); parts.append((pt, parse_operand(t, pt)))
                if not t.accept(","): break
            t.expect(")")
            return ("cgep", bt, parts)
        if v in ("inttoptr", "ptrtoint", "bitcast", "trunc"):
            t.expect("("); st = parse_type(t); op = parse_operand(t, st); t.expect("to"); dt = parse_type(t); t.expect(")")
            return ("ccast", v, st, op, dt)
        if v == "no_cfi": return parse_operand(t, ty)
    if v in ("{", "["):
        d = 1; els = []; close = {"{":"}","[":"]"}[v]
        while not t.accept(close):
            et = parse_type(t); els.append((et, parse_operand(t, et))); t.accept(",")
        return ("agg", els)
    if k == "md": return ("md", v)
    if k == "str": return ("str", v)
    raise Unsupported(f"operand {k} {v}")

class Instr:
    __slots__ = ("op","res","ty","args","extra","line","name")
    def __init__(self, op, res=None, ty=None, args=(), extra=None, line=""):
        self.op, self.res, self.ty, self.args, self.extra, self.line = op, res, ty, list(args), extra or {}, line
    def __repr__(self): return self.line.strip()

class Fn:
    def __init__(self): self.name=None; self.params=[]; self.ret=None; self.blocks={}; self.order=[]; self.entry=None; self.noreturn=False
class Module:
    def __init__(self):
        self.structs={}; self.fns={}; self.globals={}; self.decls={}; self.md={}; self.attrs={}

def strip_md_tail(line):
    # drop ", !dbg !12, !tbaa !3" etc. but remember tbaa.struct
    m = re.search(r",\s*!([a-z][-a-zA-Z.]*)\s+!", line)
    tail = ""
    if m: tail = line[m.start():]; line = line[:m.start()]
    return line, tail

CASTS = {"zext","sext","trunc","bitcast","ptrtoint","inttoptr","fptoui","fptosi","uitofp","sitofp","fpext","fptrunc"}
BINOPS = {"add","sub","mul","udiv","sdiv","urem","srem","shl","lshr","ashr","and","or","xor","fadd","fsub","fmul","fdiv"}

def parse_call_args(t):
    t.expect("(")
    args = []
    while not t.accept(")"):
        if t.accept("..."): continue
        ty = parse_type(t); 
        if ty.k == "metadata":
            # skip metadata operand
            d = 0
            while True:
                x = t.peek()[1]
                if d == 0 and x in (",", ")"): break
                if x in ("(",): d += 1
                if x in (")",): d -= 1
                t.next()
            args.append((ty, ("md", None)))
        else:
            skip_attrs(t); args.append((ty, parse_operand(t, ty)))
        t.accept(",")
    return args

def parse_instr(line):
    raw = line
    line, tail = strip_md_tail(line)
    t = Toks(tokenize(line))
    res = None
    if t.peek()[0] == "lv" and t.peek(1)[1] == "=":
        res = unq(t.next()[1]); t.next()
    k, op = t.next()
    I = lambda **kw: Instr(line=raw, **kw)
    if op in ("tail", "musttail", "notail"): k, op = t.next()
    if op in BINOPS:
        fl = []
        while t.peek()[1] in ("nuw","nsw","exact","disjoint","fast","nnan","ninf","nsz","arcp","contract","afn","reassoc"): fl.append(t.next()[1])
        ty = parse_type(t); a = parse_operand(t, ty); t.expect(","); b = parse_operand(t, ty)
        return I(op=op, res=res, ty=ty, args=[a,b], extra={"flags":fl})
    if op == "fneg":
        ty = parse_type(t); return I(op=op,res=res,ty=ty,args=[parse_operand(t,ty)])
    if op in ("icmp","fcmp"):
        pred = t.next()[1]
        while pred in ("samesign","fast","nnan","ninf","nsz","arcp","contract","afn","reassoc"): pred = t.next()[1]
        ty = parse_type(t); a = parse_operand(t, ty); t.expect(","); b = parse_operand(t, ty)
        return I(op=op, res=res, ty=ty, args=[a,b], extra={"pred":pred})
    if op in CASTS:
        while t.peek()[1] in ("nneg","nuw","nsw"): t.next()
        st = parse_type(t); a = parse_operand(t, st); t.expect("to"); dt = parse_type(t)
        return I(op=op, res=res, ty=dt, args=[a], extra={"from":st})
    if op == "load":
        if t.accept("volatile"): pass
        ty = parse_type(t); t.expect(","); parse_type(t); p = parse_operand(t, Ty("ptr"))
        return I(op=op, res=res, ty=ty, args=[p])
    if op == "store":
        if t.accept("volatile"): pass
        ty = parse_type(t); v = parse_operand(t, ty); t.expect(","); parse_type(t); p = parse_operand(t, Ty("ptr"))
        return I(op=op, ty=ty, args=[v,p])
    if op == "alloca":
        ty = parse_type(t); n = None
        if t.accept(","):
            if t.peek()[1] != "align":
                nt = parse_type(t); n = parse_operand(t, nt)
        return I(op=op, res=res, ty=ty, args=[n] if n else [])
    if op == "getelementptr":
        ib = False
        while t.peek()[1] in ("inbounds","nuw","nusw"): t.next(); ib=True
        bt = parse_type(t); t.expect(",")
        parts = []
        while True:
            pt = parse_type(t); parts.append((pt, parse_operand(t, pt)))
            if not t.accept(","): break
        return I(op=op, res=res, ty=Ty("ptr"), args=[p[1] for p in parts], extra={"base":bt,"itys":[p[0] for p in parts]})
    if op == "phi":
        ty = parse_type(t); inc = []
        while True:
            t.expect("["); v = parse_operand(t, ty); t.expect(","); b = unq(t.next()[1]); t.expect("]")
            inc.append((v,b))
            if not t.accept(","): break
        return I(op=op, res=res, ty=ty, args=[], extra={"inc":inc})
    if op == "select":
        parse_type(t); c = parse_operand(t, Ty("int",1)); t.expect(",")
        ty = parse_type(t); a = parse_operand(t, ty); t.expect(","); parse_type(t); b = parse_operand(t, ty)
        return I(op=op, res=res, ty=ty, args=[c,a,b])
    if op == "br":
        if t.accept("label"): return I(op="br", args=[], extra={"to":[unq(t.next()[1])]})
        parse_type(t); c = parse_operand(t, Ty("int",1)); t.expect(","); t.expect("label"); a = unq(t.next()[1]); t.expect(","); t.expect("label"); b = unq(t.next()[1])
        return I(op="br", args=[c], extra={"to":[a,b]})
    if op == "switch":
        ty = parse_type(t); v = parse_operand(t, ty); t.expect(","); t.expect("label"); d = unq(t.next()[1]); t.expect("[")
        cases = []
        while not t.accept("]"):
            parse_type(t); c = parse_operand(t, ty); t.expect(","); t.expect("label"); cases.append((c[1], unq(t.next()[1])))
        return I(op="switch", ty=ty, args=[v], extra={"default":d,"cases":cases})
    if op == "ret":
        ty = parse_type(t)
        return I(op="ret", ty=ty, args=[] if ty.k=="void" else [parse_operand(t, ty)])
    if op == "unreachable": return I(op=op)
    if op == "resume": return I(op=op)
    if op in ("call","invoke"):
        while t.peek()[1] in ("fastcc","ccc","coldcc","fast"): t.next()
        skip_attrs(t)
        ty = parse_type(t)
        if ty.k == "fn": ty = ty.a
        skip_attrs(t)
        callee = t.next()
        if callee[0] == "gv": c = ("gv", unq(callee[1]))
        elif callee[0] == "lv": c = ("lv", unq(callee[1]))
        else: raise Unsupported("callee " + str(callee))
        args = parse_call_args(t)
        ex = {"callee":c, "atys":[a[0] for a in args]}
        mt = re.search(r"!tbaa\.struct (!\d+)", tail)
        if mt: ex["tbaastruct"] = mt.group(1)
        if op == "invoke":
            while t.peek()[1] != "to": t.next()
            t.expect("to"); t.expect("label"); ex["to"]=[unq(t.next()[1])]
        return I(op=op, res=res, ty=ty, args=[a[1] for a in args], extra=ex)
    if op == "landingpad": return I(op=op, res=res)
    if op == "extractvalue":
        ty = parse_type(t); a = parse_operand(t, ty); idx=[]
        while t.accept(","): idx.append(int(t.next()[1]))
        return I(op=op, res=res, ty=ty, args=[a], extra={"idx":idx})
    if op == "insertvalue":
        ty = parse_type(t); a = parse_operand(t, ty); t.expect(","); ety = parse_type(t); b = parse_operand(t, ety); idx=[]
        while t.accept(","): idx.append(int(t.next()[1]))
        return I(op=op, res=res, ty=ty, args=[a,b], extra={"idx":idx,"ety":ety})
    if op == "freeze":
        ty = parse_type(t); return I(op=op,res=res,ty=ty,args=[parse_operand(t,ty)])
    raise Unsupported("instruction " + op)

def parse_module(text):
    M = Module()
    lines = text.split("\n"); i = 0
    while i < len(lines):
        l = lines[i]
        if l.startswith("%") and " = type " in l:
            n, r = l.split(" = type ", 1)
            r = r.strip()
            if r == "opaque": M.structs[unq(n)] = None
            else: M.structs[unq(n)] = parse_type(Toks(tokenize(r)))
        elif l.startswith("@"):
            m = re.match(r'(@"[^"]*"|@[-a-zA-Z$._0-9]+) = (.*)', l)
            M.globals[unq(m.group(1))] = m.group(2)
        elif l.startswith("declare"):
            m = re.search(r'(@"[^"]*"|@[-a-zA-Z$._0-9]+)\(', l)
            if m: M.decls[unq(m.group(1))] = l
        elif l.startswith("!"):
            m = re.match(r"(!\d+) = (.*)", l)
            if m: M.md[m.group(1)] = m.group(2)
        elif l.startswith("attributes"):
            m = re.match(r"attributes (#\d+) = (.*)", l)
            M.attrs[m.group(1)] = m.group(2)
        elif l.startswith("define"):
            f = Fn(); f.header = l
            hdr = re.sub(r"^define\s+((?:linkonce_odr|weak_odr|internal|private|dso_local|weak|available_externally|hidden|protected|fastcc|local_unnamed_addr)\s+)*", "", l)
            t = Toks(tokenize(hdr.split(" !dbg")[0].rstrip("{ ")))
            skip_attrs(t); f.ret = parse_type(t); 
            f.name = unq(t.next()[1]); t.expect("(")
            while not t.accept(")"):
                if t.accept("..."): continue
                ty = parse_type(t); at = skip_attrs(t); nm = unq(t.next()[1]); f.params.append((ty, nm, at)); t.accept(",")
            f.noreturn = False
            i += 1
            cur = None; body = []
            while lines[i] != "}":
                b = lines[i]
                s = b.strip()
                if s == "" or s.startswith(";"): i += 1; continue
                m = re.match(r'^("[^"]*"|[-a-zA-Z$._0-9]+):', b)
                if m and not b.startswith(" "):
                    cur = m.group(1).strip('"'); f.blocks[cur] = []; f.order.append(cur)
                    if f.entry is None: f.entry = cur
                    i += 1; continue
                if cur is None:
                    cur = "entry"; f.blocks[cur] = []; f.order.append(cur); f.entry = cur
                # join continuation lines
                full = b
                if s.startswith("switch ") and s.endswith("["):
                    while not lines[i].strip().startswith("]"):
                        i += 1; full += " " + lines[i].strip()
                elif re.match(r"(%\S+ = )?invoke ", s):
                    i += 1; full += " " + lines[i].strip()
                elif re.search(r"=\s*landingpad", s):
                    while re.match(r"\s+(cleanup|catch|filter)\b", lines[i+1]): i += 1
                if "@llvm.dbg." in full or "llvm.lifetime" in full or "llvm.experimental.noalias" in full or s.startswith("#dbg"):
                    i += 1; continue
                f.blocks[cur].append(full)   # parsed lazily
                i += 1
            M.fns[f.name] = f
        i += 1
    return M

def parse_body(f):
    if getattr(f, "parsed", False): return
    for b in f.order:
        f.blocks[b] = [parse_instr(l) if isinstance(l, str) else l for l in f.blocks[b]]
    f.parsed = True

# ---------------------------------------------------------------- layout
class Layout:
    def __init__(self, M): self.M = M; self.c = {}
    def resolve(self, ty):
        while ty.k == "named":
            s = self.M.structs.get(ty.a)
            if s is None: raise Unsupported("opaque struct " + ty.a)
            ty = s
        return ty
    def sa(self, ty):
        key = repr(ty)
        if key in self.c: return self.c[key]
        packed=False
        r = self.resolve(ty)
        if r.k == "int": n = max(1, (r.a+7)//8); n = 1 << (n-1).bit_length(); v = (n, min(n,16))
        elif r.k == "ptr": v = (8,8)
        elif r.k == "fp": v = {"double":(8,8),"float":(4,4),"x86_fp80":(16,16),"half":(2,2)}[r.a]
        elif r.k == "arr":
            s,a = self.sa(r.b); v = (s*r.a, a)
        elif r.k == "struct":
            o,al = 0,1
            for e in r.a:
                s,a = self.sa(e); o = (o+a-1)//a*a + s; al = max(al,a)
            v = ((o+al-1)//al*al, al)
        else: raise Unsupported("size of " + repr(ty))
        self.c[key] = v
        return v
    def size(self, ty): return self.sa(ty)[0]
    def field_off(self, ty, k):
        r = self.resolve(ty); o = 0
        for j,e in enumerate(r.a):
            s,a = self.sa(e); o = (o+a-1)//a*a
            if j == k: return o, e
            o += s
        raise Unsupported("field index")
    def leaves(self, ty, off=0):
        r = self.resolve(ty)
        if r.k == "struct":
            out=[]
            for j in range(len(r.a)):
                o,e = self.field_off(ty if ty.k!="named" else r, j); out += self.leaves(e, off+o)
            return out
        if r.k == "arr":
            s = self.size(r.b)
            return [x for j in range(r.a) for x in self.leaves(r.b, off+j*s)]
        return [(off, r)]

# ---------------------------------------------------------------- debug info: field offsets
def debug_fields(M):
    """Map: C++ record name (DI identifier or name) -> {field name: (byte offset, type md)}"""
    recs = {}
    def attr(s, k):
        m = re.search(k + r": (\"[^\"]*\"|!\d+|\w+)", s); return m.group(1).strip('"') if m else None
    for mid, s in M.md.items():
        if "DICompositeType(" in s and ("DW_TAG_class_type" in s or "DW_TAG_structure_type" in s):
            ident = attr(s, "identifier") or attr(s, "name"); el = attr(s, "elements")
            if not el or not ident: continue
            fl = {}
            for e in re.findall(r"!\d+", M.md.get(el, "")):
                ms = M.md.get(e, "")
                if "DW_TAG_member" in ms and "DIFlagStaticMember" not in ms:
                    off = attr(ms, "offset"); fl[attr(ms,"name")] = (int(off)//8 if off else 0, attr(ms,"baseType"))
                elif "DW_TAG_inheritance" in ms:
                    off = attr(ms, "offset"); fl["<base%d>"%len(fl)] = (int(off)//8 if off else 0, attr(ms,"baseType"))
            recs[ident] = (attr(s,"name"), fl)
    return recs
