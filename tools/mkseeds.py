#!/usr/bin/env python3
"""Creates /verif/seeded/<id>/ from the definitions below and confirms each in a scratch copy of
/repo: the patch applies, builds, passes the stable tests; the demo passes without and fails with it."""
import os, subprocess, json, shutil, sys, tempfile
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__))); S = []
def seed(id, prop, file, old, new, needs, breaks, demo, libs="", n=1): S.append((id, prop, file, old, new, needs, breaks, demo, libs, n))
HEAD = r'''#include <cstdio>
#include <cstdlib>
#include <vector>
#include <string>
#include <set>
#include <map>
#include <algorithm>
#include <sstream>
#define EXPECT(c) do { if (!(c)) { printf("line %d: %s does not hold\n", __LINE__, #c); return 1; } } while (0)
static unsigned long long RS = 12345; static unsigned rnd(unsigned n) { RS = RS * 6364136223846793005ull + 1442695040888963407ull; return (unsigned)((RS >> 33) % n); }
'''
QCONF = r'''
template<bool FI> struct QC { typedef int Entry; typedef bool CompareResult; static const bool fastIndex = FI; static const bool supportDeduplication = false;
  bool compare(int a, int b) const { return a < b; } bool cmpLessThan(bool b) const { return b; } bool cmpEqual(bool) const { return false; } int deduplicate(int a, int) const { return a; } };
template<class Q> static int history(Q& q, int steps, int mx, unsigned seed) { RS = seed; std::multiset<int> m;
  for (int i = 0; i < steps; ++i) { int op = rnd(10); if (m.empty() || (op < 6 && (int)m.size() < mx)) { int e = rnd(20); q.push(e); m.insert(e); } else if (op < 9) { int t = q.pop(); EXPECT(t == *m.rbegin()); m.erase(--m.end()); } else { int e = *m.rbegin() - (int)rnd(8); q.decreaseTop(e); m.erase(--m.end()); m.insert(e); } EXPECT(q.empty() == m.empty()); if (!m.empty()) EXPECT(q.top() == *m.rbegin()); }
  while (!m.empty()) { EXPECT(q.pop() == *m.rbegin()); m.erase(--m.end()); } EXPECT(q.empty()); return 0; }
'''
DEMO = '''#!/bin/bash
# run in the repository after its build
D=$(cd "$(dirname "$0")" && pwd); W=$(mktemp -d /tmp/vpdemo.XXXXXX); trap 'rm -rf "$W"' EXIT
g++ -std=gnu++14 -O1 -w -fsanitize=address -I"$PWD/src" -I"$PWD/src/mathic" "$D/demo.cpp" %s -o "$W/demo" -lmemtailor > "$W/log" 2>&1 || { head -c 2000 "$W/log"; exit 3; }
cd "$W" && ASAN_OPTIONS=detect_leaks=0 timeout 100 ./demo
'''
exec(open(os.path.join(V, "tools", "seed_defs.py")).read())
def sh(c, **k): return subprocess.run(c, shell=True, capture_output=True, text=True, errors="replace", **k)
def main():
    only = sys.argv[1:]
    w = "/tmp/seedwt"; shutil.rmtree(w, ignore_errors=True); sh("cp -a /repo " + w)
    for (id, prop, file, old, new, needs, breaks, demo, libs, n) in S:
        d = os.path.join(V, "seeded", id)
        if only and id not in only: continue
        if not only and os.path.exists(os.path.join(d, "meta.json")): continue
        sh("git checkout -q -- .", cwd=w)
        f = os.path.join(w, "src/mathic", file); t = open(f, newline="").read()
        if "\r\n" in t and "\n" in old + new and (old.replace("\n", "\r\n") in t): old, new = old.replace("\n", "\r\n"), new.replace("\n", "\r\n")
        if t.count(old) != n: print(id, "PATTERN occurs", t.count(old)); continue
        shutil.rmtree(d, ignore_errors=True); os.makedirs(d)
        open(os.path.join(d, "demo.cpp"), "w").write(HEAD + demo)
        open(os.path.join(d, "demo.sh"), "w").write(DEMO % " ".join('"$PWD/src/mathic/%s.cpp"' % x for x in libs.split())); os.chmod(os.path.join(d, "demo.sh"), 0o755)
        json.dump({"property": prop, "needs": needs, "what_it_breaks": breaks}, open(os.path.join(d, "meta.json"), "w"), indent=1)
        a = sh("bash " + os.path.join(d, "demo.sh"), cwd=w)
        open(f, "w", newline="").write(t.replace(old, new))
        sh("git diff --binary > " + os.path.join(d, "patch.diff"), cwd=w)
        # the lines changed have to be lines of the original repository
        bad = []
        for l in sh("git diff -U0 | grep '^@@'", cwd=w).stdout.splitlines():
            a0 = l.split()[1][1:].split(","); s0, k0 = int(a0[0]), int(a0[1]) if len(a0) > 1 else 1
            for x in range(s0, s0 + k0):
                bl = sh("git blame -s -L%d,%d HEAD -- src/mathic/%s" % (x, x, file), cwd=w).stdout
                if "c65a5cd" not in bl.split(" ")[0]: bad.append(bl.strip()[:60])
        if bad: print(id, "CHANGES LINES OF A FIX:", bad)
        b = sh("bash " + os.path.join(d, "demo.sh"), cwd=w)
        sh("git -C /repo apply " + os.path.join(d, "patch.diff"))
        bl = sh("bash /opt/vp/build.sh"); te = sh("bash /opt/vp/test.sh /tmp/seedtest.json")
        sh("git -C /repo checkout -q -- .")
        try: r = json.load(open("/tmp/seedtest.json")); txt = json.dumps(r); fails = [k for k, v in (r.get("tests", r) if isinstance(r, dict) else {}).items() if v not in ("pass", "passed", True, "PASS")] if isinstance(r, dict) else "?"
        except Exception as e: fails = str(e)
        print(id, "demo:", a.returncode, "->", b.returncode, "build", bl.returncode, "failed", r.get("failed") if isinstance(r, dict) else r, len(r.get("passed", [])), (a.stdout[-1500:] if a.returncode else ""), b.stdout.strip()[:150].replace("\n", " "), flush=True)
    shutil.rmtree(w, ignore_errors=True); sh("bash /opt/vp/build.sh"); print(sh("git -C /repo status --short").stdout)
main()
