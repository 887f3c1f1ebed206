#!/usr/bin/env python3
"""tool.py make ID...   : build seeded/<id> from bugs.py, verify in a scratch copy
   tool.py check ID [PROP...] : run check.py PROP against a patched copy"""
import sys, os, subprocess, shutil, json, re, importlib, time
sys.path.insert(0, "/tmp/seed")
V = "/verif/seeded"
DEMO = r'''#!/bin/bash
# run in the repository's root; exit 0: the property holds
R=$(pwd); H=$(cd "$(dirname "$0")" && pwd)
W=$(mktemp -d) || exit 3
trap 'rm -rf "$W"' EXIT
g++ -std=gnu++11 %s -DMIE_ATE_USE_GMP -march=x86-64 -w -I"$R/include" -I"$R/src" -I"$R/java" "$H/demo.cpp" "$R/src/zm.cpp" "$R/src/zm2.cpp" -o "$W/demo" -lgmpxx -lgmp -lpthread || exit 3
cd "$W" && timeout 120 ./demo
'''
def sh(cmd, **k): return subprocess.run(cmd, shell=isinstance(cmd, str), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **k)
def copy(name):
    d = "/tmp/seed/w/%s" % name
    shutil.rmtree(d, ignore_errors=True); os.makedirs(d)
    sh(["cp", "-a", "/repo", d + "/repo"]); sh(["cp", "-a", "/opt/vp", d + "/vp"])
    for f in os.listdir(d + "/vp"):
        p = d + "/vp/" + f
        if f.endswith((".py", ".sh")):
            t = open(p).read().replace("/repo", d + "/repo").replace("/opt/vp", d + "/vp"); open(p, "w").write(t)
    return d
def orig_lines_ok(d, files):
    pass
def make(b):
    import collections
    d = copy(b["id"]); R = d + "/repo"; out = V + "/" + b["id"]
    try:
        for f, old, new in b["edits"]:
            p = R + "/" + f; t = open(p).read()
            n = t.count(old)
            if n != 1: return "edit matches %d times in %s: %r" % (n, f, old[:60])
            open(p, "w").write(t.replace(old, new))
        diff = sh(["git", "-C", R, "diff"]).stdout
        # lines removed or neighbouring must be original
        orig = set()
        for f in {e[0] for e in b["edits"]}:
            orig |= set(sh(["git", "-C", R, "show", "233b2cb:" + f]).stdout.splitlines())
        for l in diff.splitlines():
            if l.startswith("-") and not l.startswith("---") and l[1:] not in orig:
                print("   WARN removed line not original:", l)
        r = sh(["bash", d + "/vp/test.sh", d + "/out.json"])
        res = json.load(open(d + "/out.json")); base = json.load(open("/opt/vp/BASELINE.json"))
        stable = base["stable"]
        stable = stable if isinstance(stable, list) else list(stable)
        miss = [t for t in stable if t not in res["passed"]]
        if miss: return "tests fail: %d %s\n%s" % (len(miss), miss[:6], r.stdout[-300:] if len(miss) > 200 else "")
        shutil.rmtree(out, ignore_errors=True); os.makedirs(out)
        open(out + "/patch.diff", "w").write(diff)
        if "demo_sh" in b: open(out + "/demo.sh", "w").write(b["demo_sh"])
        else: open(out + "/demo.sh", "w").write(DEMO % b.get("flags", "-O2 -DNDEBUG"))
        if b.get("demo") is not None: open(out + "/demo.cpp", "w").write(b["demo"].lstrip("\n"))
        for fn, tx in b.get("files", {}).items(): open(out + "/" + fn, "w").write(tx)
        json.dump({"property": b["prop"], "needs": b["needs"], "what_it_breaks": b["breaks"]}, open(out + "/meta.json", "w"), indent=1)
        x = sh(["bash", out + "/demo.sh"], cwd="/repo"); y = sh(["bash", out + "/demo.sh"], cwd=R)
        if x.returncode != 0: return "demo fails on clean: %d %s" % (x.returncode, "\n".join(l for l in x.stdout.splitlines() if "error" in l)[:1500] or x.stdout[-500:])
        if y.returncode == 0: return "demo passes on patched %s" % y.stdout[-300:]
        if y.returncode == 3: return "demo does not build on patched %s" % y.stdout[-600:]
        return "OK demo rc=%d %s" % (y.returncode, y.stdout.strip()[-100:])
    finally:
        if b.get("_keep") is None: shutil.rmtree(d, ignore_errors=True)
def check(bid, props):
    m = json.load(open(V + "/%s/meta.json" % bid)); props = props or [m["property"]]
    d = copy("c-" + bid); R = d + "/repo"
    r = sh(["git", "-C", R, "apply", V + "/%s/patch.diff" % bid])
    if r.returncode: return "patch does not apply " + r.stdout
    sh(["cp", "-a", "/verif", d + "/verif"])
    s = ""
    for p in props:
        t = time.time()
        r = sh(["python3", d + "/verif/check.py", p], env=dict(os.environ, VERIF_REPO=R, VERIF_SEED=os.environ.get("VERIF_SEED", "1"), VERIF_TIER="quick"))
        s += "%s %s rc=%d %.0fs %s\n" % (bid, p, r.returncode, time.time() - t, "; ".join(re.findall(r"FAILED .*|CHECK-ERROR.*", r.stdout)[:3])[:300])
    shutil.rmtree(d, ignore_errors=True)
    return s
if __name__ == "__main__":
    import bugs
    B = {b["id"]: b for b in bugs.BUGS}
    if sys.argv[1] == "make":
        from concurrent.futures import ThreadPoolExecutor
        ids = sys.argv[2:] or [i for i in B if not os.path.exists(V + "/" + i)]
        with ThreadPoolExecutor(2) as ex:
            for i, r in zip(ids, ex.map(lambda i: make(B[i]), ids)): print(i, "->", r, flush=True)
    else:
        print(check(sys.argv[2], sys.argv[3:]), flush=True)
