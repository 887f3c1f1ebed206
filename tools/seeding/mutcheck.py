#!/usr/bin/env python3
"""mutcheck.py LOG [names] : run checks against the saved survivors until one reports"""
import sys, os, re, time, glob, shutil, subprocess
sys.path.insert(0, "/tmp/seed"); import tool
ORD = {"include/zm.h": "I01 I02 I03 I04 S01 S02 F02 G02 K01 M01 K02".split(), "include/zm2.h": "F01 F04 F06 S01 S02 F02 K01 M01 K02".split(), "include/bn.h": "F03 F04 F05 G01 G03 G04 G05 P01 P03 S01 S02 K02 K01 K03 M01".split(), "src/zm.cpp": "I01 I02 K01 M01 I04".split(), "src/zm2.cpp": "F01 F03 F04 F05 M02 K01 K02 F06 F02 M01".split(), "java/bn254_if.hpp": ["J01"]}
LOG = sys.argv[1]; done = set(open(LOG).read().split()) if os.path.exists(LOG) else set()
while True:
    names = sys.argv[2:] or sorted(os.path.basename(x)[:-5] for x in glob.glob("/tmp/seed/mut/*.diff"))
    todo = [n for n in names if n not in done]
    if not todo:
        if sys.argv[2:] or os.path.exists("/tmp/seed/mut/stop"): break
        time.sleep(20); continue
    n = todo[0]; done.add(n); df = "/tmp/seed/mut/%s.diff" % n; t = open(df).read(); f = re.search(r"^\+\+\+ b/(\S+)", t, re.M).group(1)
    d = tool.copy("mc-" + n); R = d + "/repo"; tool.sh(["git", "-C", R, "apply", df]); tool.sh(["cp", "-a", "/verif", d + "/verif"]); res = "MISSED"; t0 = time.time()
    for p in ORD[f]:
        r = tool.sh(["python3", d + "/verif/check.py", p], env=dict(os.environ, VERIF_REPO=R, VERIF_SEED="1", VERIF_TIER="quick"))
        if r.returncode == 1 and "VIOLATION" in r.stdout: res = "caught " + p; break
        if r.returncode != 0: res = "ERROR %s rc=%d" % (p, r.returncode)
    ch = [l for l in t.splitlines() if l[:1] in "+-" and l[:3] not in ("+++", "---")]
    open(LOG, "a").write("%s %s %.0fs %s %s\n" % (n, res, time.time() - t0, f, " => ".join(x[1:].strip() for x in ch))); shutil.rmtree(d, ignore_errors=True)
