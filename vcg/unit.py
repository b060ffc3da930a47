"""A unit = one driver translation unit that instantiates the real /repo code, compiled to IR."""
import os, re, subprocess, tempfile, hashlib, shutil
from . import ir
from .ir import Unsupported
from .sym import *

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
CLANG = "/usr/lib/llvm-18/bin/clang++"
OPT = "/usr/lib/llvm-18/bin/opt"

class Unit:
    def __init__(self, driver, handlers=(), defines=(), bytegep=1, stubs=True, timeout=6.0, passes=None, keep=(), flags=()):
        self.flags = list(flags)
        self.driver, self.defines, self.bytegep, self.timeout, self.stubs = driver, list(defines), bytegep, timeout, stubs
        self.handlers = [(re.compile(p), h) for p, h in handlers]
        self.keep = [re.compile(k) for k in keep]
        self.passes = passes or "always-inline,function(sroa,simplifycfg)"
        self._dem = {}; self._h = {}
    def build(self, workdir):
        src = os.path.join(HERE, "drivers", self.driver)
        tag = hashlib.sha1(repr((self.driver, self.defines) + ((self.flags,) if self.flags else ())).encode()).hexdigest()[:10]
        b = os.path.join(workdir, os.path.basename(self.driver) + "." + tag)
        cmd = [CLANG, "-std=gnu++14", "-O1", "-Xclang", "-disable-llvm-passes", "-g0", "-fno-discard-value-names", "-w",
               "-fno-access-control", "-nostdinc++", "-isystem", os.path.join(HERE, "stubs"),
               "-I", os.path.join(REPO, "src"), "-I", os.path.join(REPO, "src/mathic"), "-I", os.path.join(HERE, "drivers"), "-S", "-emit-llvm", src, "-o", b + ".0.ll"] + ["-DVP_"+d for d in self.defines] + self.flags
        p = subprocess.run(cmd, capture_output=True, text=True)
        if p.returncode: raise Unsupported("extraction: the driver does not compile against the current sources\n" + p.stderr[:3000])
        txt = open(b + ".0.ll").read()
        for a, b2 in re.findall(r'^(@[-a-zA-Z$._0-9]+) = [^\n]*\balias [^\n]*ptr (@[-a-zA-Z$._0-9]+)', txt, re.M):       # complete-object constructors etc.
            txt = re.sub(re.escape(a) + r"\(", (b2 + "(").replace("\\", ""), txt)
        names = re.findall(r'^(?:define|declare).*? @("[^"]*"|[-a-zA-Z$._0-9]+)\(', txt, re.M)
        names = [n.strip('"') for n in names]
        self.load_names(names)
        out = []
        for l in txt.split("\n"):
            if l.startswith("define "):
                n = re.search(r'@("[^"]*"|[-a-zA-Z$._0-9]+)\(', l).group(1).strip('"')
                if self.handler(n) is None and not n.startswith("d_") and not n.startswith("spec_") and not any(k.search(self.demangle(n)) for k in self.keep):
                    l = re.sub(r" #(\d+)", r" alwaysinline #\1", l, count=1)
                else:
                    l = re.sub(r" #(\d+)", r" noinline #\1", l, count=1)
            elif l.startswith("attributes "):
                l = l.replace(" noinline ", " ").replace(" alwaysinline ", " ")
            out.append(l)
        # drop attributes set on individual definitions by MATHIC_INLINE etc. (all handled above)
        open(b + ".1.ll", "w").write("\n".join(out))
        p = subprocess.run([OPT, "-S", "-passes=" + self.passes, b + ".1.ll", "-o", b + ".2.ll"], capture_output=True, text=True)
        if p.returncode: raise Unsupported("opt: " + p.stderr[:2000])
        self.module = ir.parse_module(open(b + ".2.ll").read())
        return self
    def load_names(self, names):
        p = subprocess.run(["/usr/lib/llvm-18/bin/llvm-cxxfilt"], input="\n".join(names), capture_output=True, text=True)
        for n, d in zip(names, p.stdout.split("\n")): self._dem[n] = d
    def demangle(self, n): return self._dem.get(n, n)
    def handler(self, n):
        if n in self._h: return self._h[n]
        d = self.demangle(n); r = None
        for p, h in self.handlers:
            if p.search(d) : r = h; break
        self._h[n] = r
        return r

# ---------------------------------------------------------------- generic handlers
def pure(name, *sorts, ret=IntS, rng=None, argsel=None):
    """uninterpreted pure function of the (non-pointer) arguments"""
    f = z3.Function(name, *sorts, ret)
    def h(ex, st, ins, args):
        a = [args[k] for k in argsel] if argsel is not None else [x for x in args if not isinstance(x, PtrV)]
        t = f(*[lift(x) for x in a])
        if rng: ex.assume(st, z3.And(t >= 0, t < (1 << rng)))
        return t
    h.f = f
    return h
def nop(ex, st, ins, args): return None

def alloc_handler(ex, st, ins, args):
    p = ex.alloc(st); return p

def evalfn(ex, st, fname, args):
    """value of a straight-line spec function in state st"""
    f = ex.M.fns.get(fname)
    if f is None: raise Unsupported("no spec function " + fname)
    ir.parse_body(f)
    if len(f.order) != 1: raise Unsupported("spec function with branches: " + fname)
    s = st.copy(); s.env = {}
    for (ty, nm, at), a in zip(f.params, args): s.env[nm] = a
    wl, ex.wlogs = ex.wlogs, []
    d = ex.dry
    try:
        for ins in f.blocks[f.entry]:
            if ins.op == "ret":
                v = ex.val(s, ins.args[0], ins.ty)
                # keep range facts learned while reading
                for x in s.facts[len(st.facts):]: st.facts.append(x)
                for k, v2 in s.ghost.items():
                    if k not in st.ghost: st.ghost[k] = v2
                return v
            ex.step(s, ins)
    finally:
        ex.wlogs = wl
