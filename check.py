#!/usr/bin/env python3-vt
"""check.py <property>: verifies the functions under contract for this property from /repo's
current source, runs the bounded stand-ins, writes the evidence file."""
import sys, os, time, json, subprocess, tempfile, shutil, signal, threading, traceback, re
HERE = os.path.dirname(os.path.abspath(__file__)); sys.path.insert(0, HERE); sys.setrecursionlimit(30000)
REPO = os.environ.get("VERIF_REPO", "/repo")
from concurrent.futures import ThreadPoolExecutor
from contracts.props import HARNESS, jobs
SEED = int(os.environ.get("VERIF_SEED", "1") or 1); TIER = os.environ.get("VERIF_TIER", "quick")
if TIER not in ("quick", "thorough"): TIER = "quick"
NCPU = os.cpu_count() or 4
T0 = time.time(); LIMIT = 780 if TIER == "quick" else 6000
def left(): return LIMIT - (time.time() - T0)

# ------------------------------------------------------------------ proofs
def verify_job(u, job):
    """runs in a forked child"""
    from vcg import exec as X
    from vcg.ir import Unsupported
    t = time.time(); r = {"label": job.label, "status": "done", "obls": [], "covers": [], "note": "", "trusted": []}
    try:
        c = job.contract()
        if getattr(c, "lemma", False):
            r["obls"] = [(o.name, o.ok, o.how, o.t, o.detail) for o in c.prove(u)]
        else:
            ex = X.Exec(u); ex.deadline = time.time() + min(job.budget * (1 if TIER == "quick" else 4), max(20, left() - 60))
            fn = job.fn if isinstance(job.fn, str) else job.fn(u)
            if fn not in u.module.fns: raise Unsupported("no function " + str(fn) + " in the extracted unit")
            r["fn"] = fn
            try: ob = ex.verify(fn, c)
            except X.Budget as e: ob = ex.obls; r["status"] = "budget"; r["note"] = str(e)
            r["obls"] = [(o.name, o.ok, o.how, o.t, o.detail) for o in ob]
            r["covers"] = ex.covers; r["paths"] = ex.paths; r["tdrops"] = sorted(ex.tdrops); r["hq"] = ex.houdini_queries
    except Unsupported as e: r["status"] = "unsupported"; r["note"] = str(e)[:3000]
    except RecursionError as e: r["status"] = "unsupported"; r["note"] = "recursion limit of the generator"
    except Exception as e: r["status"] = "error"; r["note"] = traceback.format_exc()[-3000:]
    r["solver"] = dict(X.SOLVER_TIME); r["solved"] = dict(X.SOLVER_COUNT); r["t"] = time.time() - t
    return r

def child(u, job, fd):
    try: r = verify_job(u, job)
    except BaseException: r = {"label": job.label, "status": "error", "obls": [], "covers": [], "note": traceback.format_exc()[-2000:], "t": 0, "solver": {}, "solved": {}}
    with os.fdopen(fd, "w") as f: f.write(json.dumps(r))

def run_proofs(js, work, log):
    units = {}
    for j in js: units.setdefault(j.key, j.unit)
    built = {}
    def build(key):
        try: u = units[key](); d = os.path.join(work, "u_" + re.sub(r"\W", "_", key)); os.makedirs(d, exist_ok=True); u.build(d); built[key] = u
        except Exception as e: built[key] = e
    with ThreadPoolExecutor(NCPU) as tp: list(tp.map(build, list(units)))
    res = []; todo = list(js); run = {}
    import select
    while todo or run:
        while todo and len(run) < NCPU:
            j = todo.pop(0); u = built[j.key]
            if isinstance(u, Exception):
                res.append({"label": j.label, "status": "unsupported", "obls": [], "covers": [], "note": str(u)[:3000], "t": 0, "solver": {}, "solved": {}}); continue
            if left() < 45:
                res.append({"label": j.label, "status": "budget", "obls": [], "covers": [], "note": "not started: time limit of the check", "t": 0, "solver": {}, "solved": {}}); continue
            r, w = os.pipe(); pid = os.fork()
            if pid == 0:
                os.close(r); signal.signal(signal.SIGTERM, signal.SIG_DFL)
                try:
                    import resource; resource.setrlimit(resource.RLIMIT_AS, (6 << 30, 6 << 30))
                    child(u, j, w)
                finally: os._exit(0)
            os.close(w); run[r] = (pid, j, time.time(), [])
        if not run: continue
        rs, _, _ = select.select(list(run), [], [], 1.0)
        for fd in rs:
            d = os.read(fd, 1 << 20)
            if d: run[fd][3].append(d); continue
            os.close(fd); pid, j, t, buf = run.pop(fd); os.waitpid(pid, 0)
            try: res.append(json.loads(b"".join(buf).decode()))
            except Exception: res.append({"label": j.label, "status": "error", "obls": [], "covers": [], "note": "the verifier process died", "t": time.time()-t, "solver": {}, "solved": {}})
        for fd, (pid, j, t, buf) in list(run.items()):
            if left() < 20 or time.time() - t > j.budget * (1 if TIER == "quick" else 4) * 1.5 + 120:
                try: os.kill(pid, signal.SIGKILL)
                except ProcessLookupError: pass
    return res

# ------------------------------------------------------------------ bounded stand-ins
def build_harness(h, work, i):
    out = os.path.join(work, f"h{i}")
    libs = [os.path.join(REPO, "src/mathic", l + ".cpp") for l in h.libs]
    cmd = ["g++", "-std=gnu++14", "-O1", "-g1", "-w", "-fsanitize=address", "-D_GLIBCXX_ASSERTIONS", "-I" + REPO + "/src", "-I" + REPO + "/src/mathic", "-I" + HERE + "/harness"] + h.flags + [os.path.join(HERE, "harness", h.src)] + libs + ["-o", out, "-lmemtailor"]
    p = subprocess.run(cmd, capture_output=True, text=True, errors="replace")
    return (out if p.returncode == 0 else None), p.stderr[:4000]
def run_harness(exe, secs, seed):
    env = dict(os.environ, ASAN_OPTIONS="detect_leaks=0:abort_on_error=0:allocator_may_return_null=1")
    try: p = subprocess.run([exe, "--seed", str(seed), "--seconds", str(secs), "--cases", "100000000"], capture_output=True, text=True, errors="replace", env=env, timeout=secs + 60)
    except subprocess.TimeoutExpired: return {"rc": -1, "out": "time limit", "cases": 0, "ops": 0}
    m = re.search(r"DONE cases=(\d+) ops=(\d+)", p.stdout)
    return {"rc": p.returncode, "out": p.stdout[-12000:] + ("\n--- stderr\n" + p.stderr[-4000:] if p.returncode else ""), "cases": int(m.group(1)) if m else 0, "ops": int(m.group(2)) if m else 0, "done": bool(m)}

BASE = os.path.join(HERE, "contracts", "baseline.json")
def load_baseline():
    try: return json.load(open(BASE))
    except Exception: return {}
def save_baseline(base, res):
    for r in res:
        if r["status"] == "done" and r["obls"] and all(o[1] for o in r["obls"]): base[r["label"]] = sorted(set(base.get(r["label"], [])) | set(r.get("tdrops", [])))
        else: base.pop(r["label"], None)
    json.dump(base, open(BASE, "w"), indent=0, sort_keys=True)

def known_findings(pid):
    f = os.path.join(HERE, "known_findings.txt"); out = []
    if os.path.exists(f):
        for l in open(f):
            m = re.match(r"finding: property=(\S+) key=(\S+) (.*)", l.strip())
            if m and m.group(1) == pid: out.append((m.group(2), m.group(3)))
    return out

def main():
    pid = sys.argv[1]
    js = jobs(pid); hs = HARNESS.get(pid, [])
    work = tempfile.mkdtemp(prefix="vp_" + pid + "_")
    lines = []
    try:
        hres = [None] * len(hs); notes = []
        def hrun(i):
            exe, err = build_harness(hs[i], work, i)
            if exe is None: hres[i] = {"rc": 2, "out": "does not compile:\n" + err, "cases": 0, "ops": 0, "built": False}; return
            r = run_harness(exe, hs[i].secs if TIER == "quick" else 120, SEED); r["built"] = True; r["exe"] = exe; hres[i] = r
        # the bounded part runs in a process of its own (the proof part forks)
        hr, hw = os.pipe(); hpid = os.fork()
        if hpid == 0:
            try:
                os.close(hr)
                with ThreadPoolExecutor(3) as tp: list(tp.map(hrun, range(len(hs))))
                with os.fdopen(hw, "w") as f: f.write(json.dumps(hres))
            finally: os._exit(0)
        os.close(hw)
        if js: import contracts.plan
        res = run_proofs(js, work, None) if js else []
        with os.fdopen(hr, "r") as f: hres[:] = json.loads(f.read() or "[]") or [{"rc": 2, "out": "the bounded part died", "cases": 0, "ops": 0, "built": False} for _ in hs]
        os.waitpid(hpid, 0)
        obls = [(r["label"], o) for r in res for o in r["obls"]]
        bad = [(l, o) for l, o in obls if not o[1]]
        # An alarm needs a function that is proved completely on the tree this was written for (baseline.json), and
        # no invariant candidate lost to the time limit that was not lost there: the rest is undecided.
        base = load_baseline(); byl = {r["label"]: r for r in res}
        def firm(l): return l in base and set(byl[l].get("tdrops", [])) <= set(base[l])
        definite = [(l, o) for l, o in bad if o[2] in ("sat", "unknown", "unsat", "vacuous") and firm(l)]
        if os.environ.get("VP_BASELINE"): save_baseline(base, res)
        hbad = [(i, r) for i, r in enumerate(hres) if r["rc"] == 1 and "FAIL" in r["out"]]
        broken = [(i, r) for i, r in enumerate(hres) if r not in [x for _, x in hbad] and r["rc"] != 0]
        inconclusive = [r for r in res if r["status"] != "done"]
        # a failed obligation or code out of reach: look longer for a failing input
        extra = 0
        if not hbad and (definite or inconclusive) and hs:
            per = 40 if TIER == "quick" else 200
            for k in range(1, 3):
                if left() < per + 80: break
                def again(i): 
                    r = hres[i]
                    return (i, run_harness(r["exe"], per, SEED + 1000 * k)) if r.get("built") else None
                got = [x for x in ThreadPoolExecutor(NCPU).map(again, range(len(hs))) if x]
                for i, r in got:
                    extra += r["cases"]; hres[i]["cases"] += r["cases"]; hres[i]["ops"] += r["ops"]
                    if r["rc"] == 1 and "FAIL" in r["out"]: hbad.append((i, r))
                if hbad: break
        viol = 0
        rdir = os.path.join(HERE, "evidence", "replay"); os.makedirs(rdir, exist_ok=True)
        kf = known_findings(pid); suppressed = []
        rp = os.path.join(rdir, pid + ".txt")
        txt = []
        for l, o in bad: txt.append(f"FAILED OBLIGATION [{l}] {o[0]} ({o[2]})\n{o[4]}\n")
        for i, r in hbad:
            m = re.search(r"failing case: (\d+) seed: (\d+)", r["out"])
            h = hs[i]
            txt.append("FAILING INPUT on the real code\nreplay: " + " ".join(["g++ -std=gnu++14 -O1 -g1 -w -fsanitize=address -D_GLIBCXX_ASSERTIONS -I/repo/src -I/repo/src/mathic -I/verif/harness"] + h.flags + ["/verif/harness/" + h.src] + ["/repo/src/mathic/%s.cpp" % x for x in h.libs] + ["-o /tmp/replay -lmemtailor && ASAN_OPTIONS=detect_leaks=0 /tmp/replay" + (f" --seed {m.group(2)} --case {m.group(1)}" if m else "")]) + "\n" + r["out"] + "\n")
        if os.path.exists(rp): os.unlink(rp)
        if hbad or definite:
            keys = [k for k, _ in kf]
            if hbad: new = [r for i, r in hbad if not any(k in r["out"] for k in keys)]
            else: new = [o for l, o in definite if not any(k == o[0].replace(" ", "_") for k in keys)]
            open(rp, "w").write(f"property {pid}\n\n" + "\n".join(txt))
            if new:
                viol = 1
                for l, o in definite[:5]: lines.append(f"failed obligation: {l}: {o[0]}")
                if hbad: lines.append(re.search(r"FAIL [^\n]*", hbad[0][1]["out"]).group(0))
                lines.append(f"VIOLATION property={pid} replay={rp}" + ("" if hbad else " no-failing-input-found"))
        for k, what in kf: lines.append(f"KNOWN-FINDING: property={pid} {what}")
        n, ok = len(obls), sum(1 for _, o in obls if o[1])
        solver = {}; solved = {}
        for r in res:
            for k, v in r["solver"].items(): solver[k] = round(solver.get(k, 0) + v, 2)
        for _, o in obls:
            if o[1]: solved[o[2]] = solved.get(o[2], 0) + 1
        try:
            from contracts import plan
            trusted, assum = plan.TRUSTED(pid), plan.ASSUMED(pid)
        except Exception: trusted, assum = [], []
        cov = {"obligations": n, "discharged": ok, "checker_cmd": f"python3-vt check.py {pid}", "trusted_base": trusted,
               "functions_under_contract": [{"unit": r["label"], "status": r["status"], "obligations": len(r["obls"]), "discharged": sum(1 for o in r["obls"] if o[1]), "loop_invariants": sum(1 for o in r["obls"] if o[0].startswith("loop invariant")), "paths": r.get("paths", 0), "seconds": round(r["t"], 1), **({"note": r["note"][:600]} if r["note"] else {}), "vacuity_checks": [[c, bool(v)] for c, v in r["covers"]]} for r in res],
               "discharged_by": solved, "solver_seconds": solver,
               "undecided_functions": [r["label"] for r in inconclusive],
               "undischarged": [{"unit": l, "obligation": o[0], "result": o[2]} for l, o in bad],
               "bounded": [{"harness": h.src, "flags": h.flags, "label": "bounded, never counted as proved", "cases": r["cases"], "operations_or_calls_checked": r["ops"], "built": r.get("built", False), "seed": SEED, **({"note": r["out"][:600]} if r["rc"] not in (0, 1) else {})} for h, r in zip(hs, hres)],
               "evaluations": sum(r["cases"] for r in hres), "distinct_nontrivial": sum(r["cases"] for r in hres),
               "rule": "bounded part: seeded pseudo-random cases (one generator state per case number), every case performs at least one checked operation on the real classes",
               "samples": [f"{h.src} {' '.join(h.flags)} seed {SEED}, cases 0..{max(0, r['cases']-1)}" for h, r in zip(hs, hres)][:6]}
        level = "proof" if js else "exploration"
        ev = {"property": pid, "tier": TIER, "seed": SEED, "level": level, "coverage": cov, "assumptions": assum, "wall_s": round(time.time() - T0, 1), "violations": viol}
        os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
        open(os.path.join(HERE, "evidence", pid + ".json"), "w").write(json.dumps(ev, indent=1))
        print(f"{pid}: {ok}/{n} obligations discharged in {len(res)} units under contract ({len(inconclusive)} undecided); bounded: {sum(r['cases'] for r in hres)} cases; {time.time()-T0:.0f} s")
        for r in inconclusive: print(f"  undecided: {r['label']}: {r['status']} {r['note'][:300]}")
        for l, o in bad: 
            if (l, o) not in definite: print(f"  undecided obligation (solver {o[2]}): {l}: {o[0]}")
        for i, r in broken: print(f"  bounded part without an answer: {hs[i].src}: {r['out'][:300]}")
        for l in lines: print(l)
        # neither a proof nor a bounded run gave an answer
        if not viol and hs and all(r.get("built") is False for r in hres) and (not js or inconclusive): print("no answer: the current source does not build with the harness"); return 2
        return 1 if viol else 0
    finally:
        shutil.rmtree(work, ignore_errors=True)
sys.exit(main())
