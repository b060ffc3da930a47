"""Which functions are verified for which property."""
from .props import Job
from . import heap as hp
PLAN = {}
def add(pid, *js): PLAN.setdefault(pid, []).extend(js)
COMMON_TRUST = ["clang 18 front end (source to LLVM IR) and opt's always-inline, sroa and simplifycfg", "the VC generator in /verif/vcg", "z3 5.3.2 / cvc5 1.1.2", "stubs/vpstd.h in place of the standard library headers"]
COMMON_ASSUME = ["sizes stay below 2^56 entries (machine arithmetic is otherwise modelled exactly)", "configuration functions are pure, do not throw, and compare as a strict weak order", "memory is allocated successfully"]
def TRUSTED(pid): return COMMON_TRUST
def ASSUMED(pid): return COMMON_ASSUME
def hu(fi, dd, m=False, up=False): return lambda: hp.heap_unit(fi, dd, m, up)
for fi in ("false", "true"):
    k = f"heap fi={fi}"
    for f, c in (("d_push", hp.Push), ("d_pop", hp.Pop), ("d_top", hp.Top), ("d_decreaseTop", hp.Dec), ("d_empty", hp.Empty), ("d_size", hp.Size), ("d_clear", hp.Clear)):
        add("Q01", Job(k, hu(fi, "false"), f, c, label=f"{k} {f}"))
    add("Q01", Job(k+" modular", hu(fi, "false", True), "d_push_range", hp.Range, label=f"{k} d_push_range"))
for fi in ("false", "true"):
    for f, c in (("d_push", hp.Push), ("d_pop", hp.Pop), ("d_top", hp.Top), ("d_decreaseTop", hp.Dec), ("d_size", hp.Size), ("d_clear", hp.Clear), (hp.moveup_name, hp.MoveUp)):
        add("Q05", Job(f"heap dedup fi={fi}", hu(fi, "true", up=True), f, c, budget=240 if isinstance(f, str) else 500, label=f"heap dedup fi={fi} {f if isinstance(f, str) else 'moveValueUp'}"))
    add("Q05", Job(f"heap dedup fi={fi} modular", hu(fi, "true", True), "d_push_range", hp.Range, label=f"heap dedup fi={fi} d_push_range"))
from . import comtree as ct
for fi in ("false", "true"):
    for f, c in ct.JOBS: add("T01", Job(f"comtree fi={fi}", (lambda fi=fi: ct.unit(fi)), f, c, label=f"ComTree fi={fi} {f if isinstance(f, str) else 'increaseCapacity'}"))
for fi, sz in (("false", 24), ("false", 8), ("true", 1), ("true", 4), ("true", 8), ("true", 16), ("true", 64)):
    for f, c in ct.NODE: add("T01", Job(f"node fi={fi} size={sz}", (lambda fi=fi, sz=sz: ct.node_unit(fi, sz)), f, c, label=f"ComTree::Node fi={fi} entry size {sz} {f}"))
NOTE = {}
from . import bits as bt
for f, c in bt.JOBS: add("T02", Job("bits", bt.unit, f, c, label=f"BitTriangle {f}"))
from . import mask as mk
for et, b, s in (("int", 32, True), ("unsigned int", 32, False), ("unsigned long", 64, False)):
    for f, c in mk.JOBS: add("D01", Job(f"mask {et}", (lambda et=et, b=b, s=s: mk.unit(et, b, s)), f, c, label=f"DivMask exponent {et} {f}"))
add("D01", Job("mask int", mk.unit, "masking lemma", mk.MaskLemma, label="DivMask masking lemma"))
from . import stlset as ss
for f, c in ss.JOBS: add("Q04", Job("stlset", ss.unit, f, c, label=f"StlSet {f}"))
from . import params as pm
for f, c in pm.JOBS: add("C03", Job("params", pm.unit, f, c, label=f"parameter {f}"))
from . import names as nmf
for k, u, f, c in nmf.JOBS: add("C01", Job(k, u, f, c, label=f"NameFactory {f if isinstance(f, str) else 'registered function'}"))
from . import cli as clf
for k, u, f, c in clf.JOBS: add("C02", Job(k, u, f, c, label=f"CliParser {f}"))
from . import divlist as dl
for li in (False, True):
    for ma in (False, True):
        k = f"list {'linked' if li else 'array'}{' masks' if ma else ''}"; U = (lambda li=li, ma=ma: dl.unit(li, ma)); UM = (lambda li=li, ma=ma: dl.unit(li, ma, True))
        for f, c in dl.FIND + dl.CMP: add("D02", Job(k, U, f, c, label=f"{k} {f}"))
        for f, c in dl.REM: add("D03", Job(k, U, f, c, label=f"{k} {f}"))
        add("D03", Job(k+" modular", UM, "d_insert_range", dl.InsertRange, label=f"{k} d_insert_range"))
from . import kdleaf as kl
for lf, ma, tm, rm in kl.VARIANTS:
    k = f"leaf size={lf}{' masks' if ma else ''}{' leaf-mask' if tm else ''}{'' if rm else ' no-removals'}"; U = (lambda a=(lf, ma, tm, rm): kl.unit(*a))
    for f, c in kl.Q: add("D04", Job(k, U, f, c, label=f"{k} {f}"))
    for f, c in kl.M:
        if rm or "remove" not in f: add("D05", Job(k, U, f, c, label=f"{k} {f}"))
    for f, c in kl.I: add("D06", Job(k, U, f, c, label=f"{k} {f}"))
add("D04", Job("mask algebra", lambda: kl.unit(), "mask algebra", kl.MaskAlgebra, label="mask algebra"))
from . import display as dp
for f, c in dp.JOBS: add("F01", Job("numbers", dp.unit, f, c, label=f"ColumnPrinter {f}"))
from . import hash as ht
for k, u, f, c in ht.JOBS: add("T03", Job(k, u, f, c, budget=600 if f == "d_grow" else 240, label=f"HashTable {f}"))
from . import tourtree as tt
for k, u, f, c, *l in tt.JOBS: add("Q02", Job(k, u, f, c, budget=500, label=f"TourTree {l[0] if l else f}"))
for src in ("Q01", "Q02", "T01", "Q04"):       # their obligations include: every access lies in the storage owned, released storage is not used, nothing is released twice or leaked
    for j in list(PLAN[src]): add("Q06", j)
from . import pairqueue as pq
for k, u, f, c, l in pq.jobs(pq.ORDER): add("R01", Job(k, u, f, c, label=l))
for k, u, f, c, l in pq.jobs([x for x in pq.ORDER if x[1] in ("d_inc", "d_pop", "d_retire", "d_add", "d_ctor")] + pq.DATA): add("R02", Job(k, u, f, c, label=l))
from . import kdtree as kt
for pk in (False, True):
    for ma, tm in kt.VARIANTS:
        k = f"{'packed' if pk else 'binary'} tree{' masks' if ma else ''}{' tree masks' if tm else ''}"; U = (lambda a=(pk, ma, tm): kt.unit(a[0], 10, a[1], a[2]))
        for f, c in kt.Q: add("D04", Job(k, U, f, c, label=f"{k} {f}"))
        for f, c in kt.M: add("D05", Job(k, U, f, c, label=f"{k} {f}"))
        for f, c in kt.I: add("D06", Job(k, U, f, c, label=f"{k} {f}"))
