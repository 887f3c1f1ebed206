#!/usr/bin/env python3
"""mutate.py N SEED : random single-line changes; those that pass the stable tests are kept in /tmp/seed/mut/"""
import sys, os, random, re, json, shutil, subprocess, concurrent.futures
sys.path.insert(0, "/tmp/seed"); import tool
OUT = "/tmp/seed/mut"; os.makedirs(OUT, exist_ok=True)
FILES = {"include/zm.h": 3, "include/zm2.h": 2, "include/bn.h": 4, "src/zm.cpp": 1, "src/zm2.cpp": 4, "java/bn254_if.hpp": 1}
def ops(l):
    r = []
    def sub(pat, rep):
        for m in re.finditer(pat, l):
            r.append(l[:m.start()] + m.expand(rep) + l[m.end():])
    sub(r" < ", " <= "); sub(r" <= ", " < "); sub(r" > ", " >= "); sub(r" >= ", " > "); sub(r" == ", " != "); sub(r" != ", " == ")
    sub(r" && ", " || "); sub(r" \|\| ", " && "); sub(r" \+ 1\b", ""); sub(r" - 1\b", ""); sub(r" \+ (\w)", r" - \1"); sub(r" - (\w)", r" + \1")
    sub(r"\badc\(", "add("); sub(r"\bsbb\(", "sub("); sub(r"\badd\(", "sub("); sub(r"\bsub\(", "add("); sub(r"\btrue\b", "false"); sub(r"\bfalse\b", "true")
    sub(r"\bcmovc\(", "cmovnc("); sub(r"\bcmovnc\(", "cmovc("); sub(r"\baddNC\(", "add("); sub(r"\badd\(", "addNC("); sub(r"mulOpt2\(", "mulOpt1("); sub(r"\.a_", ".b_"); sub(r"\.b_", ".a_")
    sub(r"\b0\b", "1"); sub(r"\b1\b", "0"); sub(r"\b1\b", "2"); sub(r"\b2\b", "3"); sub(r"\* 8\b", "* 4"); sub(r"!(\w)", r"\1"); sub(r" & ", " | "); sub(r"%= ", "/= "); sub(r"<<= ", ">>= ")
    sub(r"\bgp1\b", "gp2"); sub(r"\bt0\b", "t1"); sub(r"\bt1\b", "t2"); sub(r"\bd0\b", "d1"); sub(r"\bsize\(\)", "size() - 1")
    if re.match(r"^\t+[\w\.\->:\[\]\(\)\*&<> ,+\-]+(\(.*\)|[-+*&|^%/]?= .*|\+\+);\s*(//.*)?$", l) and "return" not in l and not re.match(r"^\t+(static |const |typedef |Fp|Unit |T |int |size_t )", l): r.append(re.match(r"^\t*", l).group(0) + ";")
    return [x for x in r if x != l]
def sites():
    S = []
    for f, w in FILES.items():
        L = open("/repo/" + f).read().split("\n"); c = []; skip = False
        for i, l in enumerate(L):
            s = l.strip()
            if s.startswith("/*"): skip = True
            if skip:
                if "*/" in s: skip = False
                continue
            if s.startswith(("//", "#", "*")) or "printf" in s or "cout" in s or "assert" in s or not s: continue
            o = ops(l)
            if o: c.append((f, i, l, o))
        S.append((w, c))
    return S
def test(m):
    name, f, i, l, new = m
    d = tool.copy("mut-" + name); R = d + "/repo"
    try:
        t = open(R + "/" + f).read().split("\n"); t[i] = new; open(R + "/" + f, "w").write("\n".join(t))
        x = subprocess.run(["g++", "-std=gnu++11", "-fsyntax-only", "-w", "-DMIE_ATE_USE_GMP", "-I" + R + "/include", "-I" + R + "/src", R + "/src/zm2.cpp"], stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL)
        if x.returncode: return "nocompile"
        # quick filter
        b = "g++ -O0 -w -std=gnu++11 -DMIE_ATE_USE_GMP -I%s/include -I%s/src -I%s/test" % (R, R, R)
        r = subprocess.run(("cd %s && for f in zm zm2; do %s -c %s/src/$f.cpp -o $f.o & done; for f in sample test_zm; do %s -c %s/test/$f.cpp -o $f.o & done; wait; for f in sample test_zm; do g++ $f.o zm.o zm2.o -o $f -lgmpxx -lgmp || exit 9; timeout 60 ./$f > $f.out 2>&1 || exit 8; grep -qE 'err=[1-9]|ng=[1-9]|NG' $f.out && exit 7; done; exit 0") % (d, b, R, b, R), shell=True, executable="/bin/bash", stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL)
        if r.returncode: return "killed early %d" % r.returncode
        try: r = subprocess.run(["bash", d + "/vp/test.sh", d + "/out.json"], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=400)
        except subprocess.TimeoutExpired: return "killed(hang)"
        try: res = json.load(open(d + "/out.json"))
        except Exception: return "killed"
        st = list(json.load(open("/opt/vp/BASELINE.json"))["stable"])
        if any(x not in res["passed"] for x in st): return "killed"
        diff = tool.sh(["git", "-C", R, "diff"]).stdout
        open(OUT + "/" + name + ".diff", "w").write(diff)
        return "SURVIVED"
    finally: shutil.rmtree(d, ignore_errors=True)
if __name__ == "__main__":
    n, seed = int(sys.argv[1]), int(sys.argv[2]); g = random.Random(seed); S = sites(); M = []
    for k in range(n):
        w = g.choices(S, [x[0] for x in S])[0]; f, i, l, o = g.choice(w[1]); M.append(("%d-%03d" % (seed, k), f, i, l, g.choice(o)))
    with concurrent.futures.ThreadPoolExecutor(4) as ex:
        for m, r in zip(M, ex.map(test, M)): print(m[0], r, "%s:%d" % (m[1], m[2] + 1), m[3].strip(), "=>", m[4].strip(), flush=True)
