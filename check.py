#!/usr/bin/env python3
"""check.py PROPERTY            decide one property on /repo's current working tree (VERIF_SEED, VERIF_TIER)
   check.py PROPERTY --replay F  run again the one process recorded in replay file F
   check.py --setup              sanity check of the toolchain

exit 0  held on everything explored (KNOWN-FINDING lines for listed findings)
exit 1  violated; "VIOLATION property=<id> replay=<path>" on stdout
exit 2  the check itself failed or could not decide (build failure, harness error)
"""
import concurrent.futures, hashlib, json, os, re, shutil, signal, subprocess, sys, tempfile, time

VERIF = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("VERIF_REPO", "/repo")
MON = os.path.join(VERIF, "mon")
CACHE = os.path.join(VERIF, ".build")
SEED = int(os.environ.get("VERIF_SEED", "1") or "1")
TIER = os.environ.get("VERIF_TIER", "quick")
if TIER not in ("quick", "thorough"):
    TIER = "quick"
JOBS = int(os.environ.get("VERIF_JOBS", "0")) or os.cpu_count() or 4
T0 = time.time()

for k in ("MAKEFLAGS", "CFLAGS", "CXXFLAGS", "LDFLAGS", "CPATH", "LIBRARY_PATH", "JAVA_TOOL_OPTIONS", "LD_PRELOAD"):
    os.environ.pop(k, None)
os.environ["ASAN_OPTIONS"] = "abort_on_error=1:detect_leaks=0:detect_stack_use_after_return=1:handle_abort=0:allocator_may_return_null=0"
os.environ["UBSAN_OPTIONS"] = "print_stacktrace=1:halt_on_error=1:abort_on_error=1"
os.environ["TSAN_OPTIONS"] = "halt_on_error=0:exitcode=0:second_deadlock_stack=1:history_size=4"


class CheckError(Exception):
    """the check cannot decide"""


def log(*a):
    print(*a, flush=True)


# ---------------------------------------------------------------- building
BASE = ["-std=gnu++11", "-DMIE_ATE_USE_GMP", "-march=x86-64", "-mtune=generic", "-w"]
VARIANTS = {
    # what the Makefile builds, apart from -march and warnings
    "rel": ["-O3", "-fomit-frame-pointer", "-DNDEBUG", "-fno-operator-names"],
    "o2": ["-O2", "-DNDEBUG"],
    "o0": ["-O0"],
    "asan": ["-O1", "-g1", "-fno-omit-frame-pointer", "-fsanitize=address,undefined", "-fno-sanitize-recover=all", "-D_GLIBCXX_ASSERTIONS"],
    "dbg": ["-O1", "-g1"],
    "tsan": ["-O1", "-g1", "-fno-omit-frame-pointer", "-fsanitize=thread", "-DNDEBUG"],
    "cap8": ["-O2", "-DNDEBUG", "-DMIE_ZM_VUINT_BIT_LEN=512"],
    "cap600": ["-O2", "-DNDEBUG", "-DMIE_ZM_VUINT_BIT_LEN=600"],  # no multiple of the word size
    "cap16": ["-O2", "-DNDEBUG", "-DMIE_ZM_VUINT_BIT_LEN=1024"],
    "cap16asan": ["-O1", "-g1", "-fno-omit-frame-pointer", "-fsanitize=address,undefined", "-fno-sanitize-recover=all", "-D_GLIBCXX_ASSERTIONS", "-DMIE_ZM_VUINT_BIT_LEN=1024"],
    "cap64": ["-O2", "-DNDEBUG", "-DMIE_ZM_VUINT_BIT_LEN=4096"],
    "cap10dbg": ["-O1", "-g1", "-DMIE_ZM_VUINT_BIT_LEN=640"],
    "vg": ["-O1", "-g1", "-DNDEBUG"],
}
_hash = {}


def file_hash(path):
    if path not in _hash:
        with open(path, "rb") as f:
            _hash[path] = hashlib.sha256(f.read()).hexdigest()
    return _hash[path]


def tree_hash():
    """everything a monitor's object can depend on"""
    if "tree" not in _hash:
        h = hashlib.sha256()
        for root in (REPO + "/include", REPO + "/src", REPO + "/java"):
            for d, dirs, files in sorted(os.walk(root)):
                dirs.sort()
                if "mcl" in dirs:
                    dirs.remove("mcl")
                for f in sorted(files):
                    if f.endswith((".h", ".hpp", ".cpp", ".i", ".inc", ".cc", ".c")):
                        h.update((os.path.relpath(os.path.join(d, f), REPO) + file_hash(os.path.join(d, f))).encode())
        for f in ("common.hpp", "ref.hpp"):
            h.update(file_hash(os.path.join(MON, f)).encode())
        h.update(subprocess.run(["g++", "--version"], capture_output=True).stdout)
        _hash["tree"] = h.hexdigest()
    return _hash["tree"]


def run_tool(cmd, cwd=None, timeout=800):
    r = subprocess.run(cmd, cwd=cwd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=timeout)
    return r.returncode, r.stdout.decode("utf-8", "replace")


def compile_obj(src, flags, extra_deps=(), cxx="g++"):
    key = hashlib.sha256(("|".join([tree_hash(), file_hash(src), cxx] + flags + [file_hash(d) for d in extra_deps])).encode()).hexdigest()[:32]
    obj = os.path.join(CACHE, key + ".o")
    if os.path.exists(obj):
        os.utime(obj)
        return obj
    tmp = "%s.%d.tmp.o" % (obj, os.getpid())
    rc, out = run_tool([cxx, "-c", src, "-o", tmp, "-I" + REPO + "/include", "-I" + REPO + "/src", "-I" + MON] + flags)
    if rc != 0:
        raise CheckError("compilation of %s failed:\n%s" % (src, "\n".join(l for l in out.splitlines() if "error" in l)[:3000] or out[:3000]))
    os.replace(tmp, obj)
    return obj


def prune_cache(limit=1500 << 20):
    try:
        fs = sorted((os.stat(os.path.join(CACHE, f)).st_mtime, os.stat(os.path.join(CACHE, f)).st_size, f) for f in os.listdir(CACHE))
    except OSError:
        return
    total = sum(x[1] for x in fs)
    for _, size, f in fs:
        if total <= limit:
            break
        try:
            os.unlink(os.path.join(CACHE, f))
        except OSError:
            pass
        total -= size


def build(specs):
    """specs: list of (name, suite sources, curve, variant, extra flags, libs) -> {name: executable}"""
    os.makedirs(CACHE, exist_ok=True)
    prune_cache()
    jobs = {}
    plan = {}
    for spec in specs:
        name, sources, curve, variant, extra, libs = spec[:6]
        more = spec[6] if len(spec) > 6 else {}  # cxx: compiler, nogmp: without MIE_ATE_USE_GMP, all: flags for every object
        flags = BASE + VARIANTS[variant] + (["-DBN_SUPPORT_SNARK"] if curve == "snark" else []) + list(more.get("all", ()))
        if more.get("nogmp"):
            flags = [f for f in flags if f != "-DMIE_ATE_USE_GMP"]
        cxx = more.get("cxx", "g++")
        if cxx != "g++":
            flags = [f for f in flags if f != "-fno-operator-names"]
        objs = [(REPO + "/src/zm.cpp", tuple(flags)), (REPO + "/src/zm2.cpp", tuple(flags))]
        objs = [(os.path.join(MON, s), tuple(flags + list(extra))) for s in sources] + objs
        objs = [o + (cxx,) for o in objs]
        plan[name] = (objs, flags, libs)
        for o in objs:
            jobs[o] = None
    deps = [os.path.join(MON, f) for f in sorted(os.listdir(MON)) if f.endswith(".hpp")]
    order = sorted(jobs, key=lambda o: (not o[0].endswith("zm2.cpp"), "fsanitize" not in " ".join(o[1])))
    with concurrent.futures.ThreadPoolExecutor(JOBS) as ex:
        futs = {o: ex.submit(compile_obj, o[0], list(o[1]), deps if o[0].startswith(MON) else (), o[2]) for o in order}
        for o, f in futs.items():
            jobs[o] = f.result()
    exes = {}

    def link(name):
        objs, flags, libs = plan[name]
        ol = [jobs[o] for o in objs]
        key = hashlib.sha256("|".join(ol + flags + list(libs)).encode()).hexdigest()[:32]
        exe = os.path.join(CACHE, key + ".exe")
        if not os.path.exists(exe):
            tmp = "%s.%d.tmp" % (exe, os.getpid())
            rc, out = run_tool([objs[0][2]] + flags + ol + ["-o", tmp] + list(libs) + ["-lgmpxx", "-lgmp", "-lpthread"])
            if rc != 0:
                raise CheckError("link of %s failed:\n%s" % (name, out[:3000]))
            os.replace(tmp, exe)
        return exe

    with concurrent.futures.ThreadPoolExecutor(JOBS) as ex:
        for name, exe in zip(plan, ex.map(link, plan)):
            exes[name] = exe
    return exes


# ---------------------------------------------------------------- running
class Result:
    def __init__(self):
        self.evaluations = self.distinct = self.cases = 0
        self.counters = {}
        self.samples = []
        self.fails = []          # (key, detail, run)
        self.runs = []

    def merge(self, js, run):
        self.evaluations += js["evaluations"]
        self.distinct += js["distinct"]
        self.cases += js["cases"]
        for k, v in js["counters"].items():
            if k.startswith("max:"):
                self.counters[k] = max(self.counters.get(k, 0), v)
            else:
                self.counters[k] = self.counters.get(k, 0) + v
        for s in js["samples"][:3]:
            if len(self.samples) < 24:
                self.samples.append({"config": run["name"], "case": s})
        for f in js["fails"]:
            self.fails.append((f["key"], f["detail"], run, f.get("case")))
        self.runs.append({"config": run["name"], "evaluations": js["evaluations"], "distinct": js["distinct"], "wall_s": round(run.get("wall", 0), 2)})


def read_progress(path):
    try:
        with open(path, "rb") as f:
            b = f.read(128)
        import struct
        no, rng = struct.unpack("<QQ", b[:16])
        return no, rng, b[16:].split(b"\0")[0].decode("latin-1")
    except Exception:
        return 0, 0, "?"


def exec_once(run, work, timeout):
    """-> (status, payload); status: ok, crash, timeout, harness"""
    tag = hashlib.sha256(json.dumps([run["name"], run["args"]]).encode()).hexdigest()[:16]
    out = os.path.join(work, tag + ".json")
    prog = os.path.join(work, tag + ".prog")
    for f in (out, prog):
        if os.path.exists(f):
            os.unlink(f)
    cmd = list(run.get("wrap", [])) + [run["exe"]] + run["args"] + ["--out", out, "--progress", prog]
    t = time.time()
    err = open(os.path.join(work, tag + ".err"), "w+b")
    outf = open(os.path.join(work, tag + ".stdout"), "w+b")
    p = subprocess.Popen(cmd, cwd=work, stdout=outf, stderr=err, stdin=subprocess.DEVNULL, start_new_session=True)
    try:
        rc = p.wait(timeout=timeout)
    except subprocess.TimeoutExpired:
        os.killpg(p.pid, signal.SIGKILL)
        p.wait()
        return "timeout", "label=%s case=%d" % (read_progress(prog)[2], read_progress(prog)[0])
    finally:
        run["wall"] = time.time() - t
    err.seek(0)
    text = err.read().decode("utf-8", "replace")
    outf.seek(0)
    otext = outf.read().decode("utf-8", "replace")
    if rc == 70 or "HARNESS-ERROR" in text:
        return "harness", text[-3000:]
    if rc == 0 and os.path.exists(out):
        try:
            with open(out) as f:
                js = json.load(f)
        except ValueError as e:
            return "harness", "bad output of the monitor: %s" % e
        m = re.search(r"==\d+== (Invalid (read|write)|Conditional jump|Use of uninit|Invalid free|Mismatched free|Source and dest|Uninitialised|Process terminating)[^\n]*", text)
        if m and js["fails"]:
            n = re.sub(r"==\d+== ", "", text)
            for f in js["fails"]:
                f["detail"] += "\n" + n[:2500]
        m = re.search(r"WARNING: ThreadSanitizer[^\n]*", text)
        if m and not js["fails"]:
            js["fails"].append({"key": "race: " + re.sub(r" \(pid.*", "", m.group(0)), "detail": text[:3000], "case": None})
        if m:
            for f in js["fails"]:
                f["detail"] += "\n" + text[text.index(m.group(0)):][:1500]
        return "ok", js
    no, rng, label = read_progress(prog)
    if rc == -9:
        return "harness", "killed (memory?) label=%s" % label
    what = "signal %d" % -rc if rc < 0 else "exit status %d" % rc
    m = re.search(r"(ERROR: AddressSanitizer[^\n]*|[^\n]*runtime error:[^\n]*|[^\n]*Assertion[^\n]*failed[^\n]*|WARNING: ThreadSanitizer[^\n]*|terminate called[^\n]*(\n[^\n]*what\(\)[^\n]*)?)", text)
    brief = m.group(1).strip() if m else (text.strip().splitlines() or [otext.strip()[-200:]])[-1][:300]
    brief = re.sub(r"==\d+==", "", brief)
    brief = re.sub(r"0x[0-9a-f]{6,}", "0x..", brief)
    brief = re.sub(r" on (unknown )?address.*", "", brief)
    return "crash", {"key": "crash@%s: %s" % (label, brief), "detail": "%s in case %d (%s)\n%s\n%s" % (what, no, label, otext[-500:], text[-2500:]), "case": no}


def run_all(runs, work, res, timeout=260):
    """runs: dicts with name, exe, args"""
    late = []

    def take(r, st, pl):
        if st == "ok":
            res.merge(pl, r)
        elif st == "crash":
            res.fails.append((pl["key"], pl["detail"], r, pl["case"]))
        elif st == "harness":
            broken.append("%s: %s" % (r["name"], pl))
        else:
            hung.append((r, pl))

    def one(r):
        if len(late) >= 2:  # the time of the rest is better spent on finding out whether these two hang
            return r, "left", None
        st, pl = exec_once(r, work, timeout)
        if st == "timeout":
            late.append(r)
        return r, st, pl
    broken, hung, left = [], [], []
    with concurrent.futures.ThreadPoolExecutor(JOBS) as ex:
        for r, st, pl in ex.map(one, runs):
            if st == "left":
                left.append(r)
            else:
                take(r, st, pl)
    again, hung = hung, []
    for r, pl in again[:2]:  # alone on the machine
        if hung:
            break
        take(r, *exec_once(r, work, max(timeout, 300)))
    for r, pl in hung:
        res.fails.append(("hang@" + pl.split(" case=")[0], "no end within %d s, nor within %d s alone on the machine; %s" % (timeout, max(timeout, 300), pl), r, None))
    if not res.fails:  # slow, but not hanging
        rest = [r for r, _ in again[2:]] + left
        hung = []
        with concurrent.futures.ThreadPoolExecutor(JOBS) as ex:
            for r, (st, pl) in zip(rest, ex.map(lambda r: exec_once(r, work, timeout), rest)):
                take(r, st, pl)
        if hung:
            broken.append("%d processes did not finish in time" % len(hung))
    if broken and not res.fails:  # what other monitors saw stands
        raise CheckError(broken[0])


# ---------------------------------------------------------------- verdict
def known_findings():
    with open(os.path.join(VERIF, "known_findings.json")) as f:
        return json.load(f)["findings"]


def finish(prop, res, rule, assumptions, level="exploration", extra=None, min_evals=1):
    new, known = [], {}
    for key, detail, run, case in res.fails:
        for k in known_findings():
            if k["property"] == prop and k["key"] in key and k.get("detail", "") in detail:
                known.setdefault(k["what"], (key, detail))
                break
        else:
            new.append((key, detail, run, case))
    cov = {"evaluations": res.evaluations, "distinct_nontrivial": res.distinct, "rule": rule,
           "samples": res.samples or ["none"], "events": dict(sorted(res.counters.items())), "runs": res.runs}
    cov.update(extra or {})
    ev = {"property": prop, "tier": TIER, "seed": SEED, "level": level, "coverage": cov,
          "assumptions": assumptions, "wall_s": round(time.time() - T0, 2), "violations": len(new)}
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    path = os.path.join(VERIF, "evidence", prop + ".json")
    with open(path + ".tmp", "w") as f:
        json.dump(ev, f, indent=1)
    os.replace(path + ".tmp", path)
    for what, (key, _) in known.items():
        log("KNOWN-FINDING: property=%s %s" % (prop, what))
    if new:
        os.makedirs(os.path.join(VERIF, "replay"), exist_ok=True)
        rp = os.path.join(VERIF, "replay", "%s.json" % prop)
        key, detail, run, case = new[0]
        seen = set()
        for k, d, r, cs in new:
            if k in seen or len(seen) > 12:
                continue
            seen.add(k)
            log("  FAILED [%s] %s" % (r["name"] if r else "-", k))
            log("    " + d.strip().replace("\n", "\n    ")[:1500])
        with open(rp, "w") as f:
            json.dump({"property": prop, "key": key, "detail": detail, "case": case, "tier": TIER, "seed": SEED,
                       "run": {k: v for k, v in (run or {}).items() if k not in ("exe", "wall", "crash_only")},
                       "all": [{"key": k, "detail": d, "config": r["name"] if r else "-", "case": cs} for k, d, r, cs in new[:50]]}, f, indent=1)
        log("VIOLATION property=%s replay=%s" % (prop, rp))
        return 1
    if res.evaluations < min_evals:
        raise CheckError("only %d evaluations" % res.evaluations)
    log("%s: held on %d evaluations (%d distinct non-trivial) in %d runs, %.1f s" % (prop, res.evaluations, res.distinct, len(res.runs), time.time() - T0))
    return 0


# ---------------------------------------------------------------- run matrices
# (curve, b, mode, mulx)
ALL_CFG = [("default", 2, m, x) for m in (-1, 0, 1) for x in (1, 0)] + \
          [("snark", b, m, x) for b in (3, 82) for m in (-1, 0, 1) for x in (1, 0)]
FEW_CFG = [("default", 2, -1, 1), ("default", 2, 0, 0), ("default", 2, 1, 1), ("default", 2, 1, 0), ("default", 2, 0, 1),
           ("snark", 3, -1, 1), ("snark", 82, -1, 1), ("snark", 82, 1, 0), ("snark", 3, 0, 0), ("snark", 3, 1, 1), ("snark", 82, 0, 1)]
SAN_CFG = [("default", 2, -1, 1), ("default", 2, 1, 0), ("snark", 3, -1, 1), ("snark", 82, 1, 0)]
INT_CFG = [("default", 2, -1, 1)]


def std_runs(prop, suite, cfgs, variant, scale, salt=0, libs=(), seeds=1, opt=None, extra=(), wrap=()):
    """-> (build specs, function exes -> runs)"""
    specs, plan = {}, []
    for i, (curve, b, mode, mulx) in enumerate(cfgs):
        nm = "%s-%s-%s%s" % (suite, curve, variant, "".join(extra))
        specs[nm] = (nm, ["suites/%s.cpp" % suite], curve, variant, tuple(extra), tuple(libs))
        for s in range(seeds):
            seed = SEED * 1000003 + salt * 7919 + i * 131 + s * 17 + 1
            args = ["--seed", str(seed), "--tier", TIER, "--scale", str(scale), "--mode", str(mode), "--mulx", str(mulx), "--b", str(b)]
            if opt:
                args += ["--opt", opt]
            plan.append({"name": "%s/%s b=%d mode=%d mulx=%d seed=%d%s" % (nm, curve, b, mode, mulx, seed, " opt=" + opt if opt else ""), "spec": nm, "args": args, "wrap": list(wrap),
                         "suite": suite, "variant": variant, "curve": curve, "extra": list(extra), "libs": list(libs)})
    return specs, plan


ASSUME = ["GMP's integer arithmetic and the reference in mon/ref.hpp (self-checked at start-up) are right",
          "the processor executes the generated code as in production; results hold for the executions observed only"]

GEN_RULE = ("seeded edge-biased generation (0, 1, p-1, powers of two and neighbours, limbs of all zeros/ones, the same patterns in Montgomery form, "
            "related and cancelling pairs, aliasing); every result compared with an independent GMP reference; ")

# property -> (rule, [(suite, configs, variant, quick scale %, thorough scale %, thorough seeds), ...])
PROPS = {}


def P(prop, rule, *parts, **kw):
    PROPS[prop] = (rule, parts, kw)


P("F01", GEN_RULE + "a case is non-trivial when its operands are not zero",
  ("f01", ALL_CFG, "rel", 100, 1000, 4), ("f01", SAN_CFG, "asan", 12, 100, 2))


P("F02", GEN_RULE + "a case is non-trivial when base and exponent are neither 0 nor 1",
  ("f02", FEW_CFG, "rel", 600, 5000, 3), ("f02", SAN_CFG, "asan", 60, 500, 2))
P("F03", GEN_RULE + "tower elements include all coefficients near the maximum, sparse, equal and opposite coefficients",
  ("f03", ALL_CFG, "rel", 400, 5000, 3), ("f03", SAN_CFG, "asan", 40, 400, 2))
P("F04", GEN_RULE + "double-width operands include 0, p*2^256 - 1, multiples of p and values next to the bounds",
  ("f04", ALL_CFG, "rel", 500, 6000, 3), ("f04", SAN_CFG, "asan", 40, 400, 2))

P("F05", GEN_RULE + "elements include subfields, line values, monomials and members of the cyclotomic subgroup; non-trivial: the expected value is not 1",
  ("f05", ALL_CFG, "rel", 600, 8000, 3), ("f05", SAN_CFG, "asan", 40, 400, 2))
PT_RULE = ("seeded points (G1, twist inside and outside the order-r subgroup) in arbitrary projective representations, with equal, opposite, coordinate-sharing pairs and "
           "every form of infinity; every result compared with affine arithmetic over GMP; ")
P("G01", PT_RULE + "non-trivial: no operand is infinity", ("g01", ALL_CFG, "rel", 2000, 20000, 3), ("g01", SAN_CFG, "asan", 150, 1500, 2))
P("G02", PT_RULE + "scalars of every type and length with sparse words, near r and p and their multiples; non-trivial: finite point and |n| > 1",
  ("g02", ALL_CFG, "rel", 800, 8000, 3), ("g02", SAN_CFG, "asan", 60, 600, 2))
P("G03", PT_RULE + "valid points, one-coordinate perturbations, points of other curves, arbitrary coordinates; the library's verdict compared with the curve equation",
  ("g03", ALL_CFG, "rel", 3000, 30000, 3), ("g03", SAN_CFG, "asan", 200, 2000, 2))
P("G04", PT_RULE + "families of representations compared pairwise before and after lazy normalisation", ("g04", ALL_CFG, "rel", 1500, 15000, 3), ("g04", SAN_CFG, "asan", 100, 1000, 2))
P("G05", PT_RULE + "images compared with coordinate-wise p-th powers after untwisting", ("g05", ALL_CFG, "rel", 2500, 25000, 3), ("g05", SAN_CFG, "asan", 150, 1500, 2))
P("P01", PT_RULE + "value compared with an independent textbook pairing through every entry point; non-trivial: no point is infinity",
  ("p01", ALL_CFG, "rel", 600, 8000, 3), ("p01", SAN_CFG, "asan", 40, 400, 2))
P("P02", "seeded points and scalars; both sides of every relation computed by the library and compared; forgeries, other messages and other keys must be rejected",
  ("p02", ALL_CFG, "rel", 500, 8000, 3), ("p02", SAN_CFG, "asan", 40, 400, 2))
P("P03", "seeded points in arbitrary representations; precomputed and product loops compared with direct pairings and a sample with the reference; dirty containers, reuse",
  ("p03", ALL_CFG, "rel", 800, 12000, 3), ("p03", SAN_CFG, "asan", 60, 600, 2))
PRE = {"extra": ("-DMON_NO_INIT",)}  # big integers are used before the library is initialised: the portable routines
INT_RULE = "seeded values of every length up to the capacity with special limb patterns, related pairs and all aliasing patterns, results compared with GMP; "
for prop_, q_, note_ in (("I01", 3000, "non-trivial: operands are not both below 2"), ("I02", 3000, "all sign combinations; non-trivial: operands are not both below 2"),
                         ("I03", 1500, "prime and composite moduli of every length, three independent rings; non-trivial: operands above 1")):
    s_ = prop_.lower()
    P(prop_, INT_RULE + note_,
      *[(s_, INT_CFG * 2, "rel", q_, q_ * 10, 4), (s_, INT_CFG, "o0", q_ // 10, q_, 2), (s_, INT_CFG * 2, "asan", q_ // 10, q_, 2), (s_, INT_CFG * 2, "cap8", q_ // 2, q_ * 5, 3),
        (s_, INT_CFG, "cap600", q_ // 4, q_ * 3, 2), (s_, INT_CFG, "cap16", q_ // 2, q_ * 5, 3), (s_, INT_CFG, "cap10dbg", q_ // 6, q_, 2),
        (s_, INT_CFG, "rel", q_ // 2, q_ * 4, 2, PRE), (s_, INT_CFG, "asan", q_ // 20, q_, 2, PRE), (s_, INT_CFG, "cap16asan", q_ // 20, q_, 2), (s_, INT_CFG, "cap64", q_ // 10, q_, 2)])
P("I04", "requests at, just beyond and far beyond the capacity or domain boundary, each in its own forked process on objects between guard words; judged: how the process ended, its diagnostic, the stored value, the guards; "
  "non-trivial: the request may or must stop",
  ("i04", INT_CFG * 3, "rel", 1200, 20000, 3), ("i04", INT_CFG, "o0", 500, 5000, 2), ("i04", INT_CFG * 2, "asan", 60, 800, 2), ("i04", INT_CFG * 2, "cap8", 1000, 15000, 3),
  ("i04", INT_CFG, "cap600", 500, 6000, 2), ("i04", INT_CFG, "cap16", 800, 10000, 3), ("i04", INT_CFG, "cap10dbg", 500, 6000, 2), ("i04", INT_CFG, "rel", 500, 6000, 2, PRE))
P("F06", GEN_RULE + "all ints within 3000 of 0 and at every power of two, sampled ints and big integers; non-trivial: the number is not 0 (or 1)",
  ("f06", ALL_CFG, "rel", 1500, 20000, 3), ("f06", SAN_CFG, "asan", 200, 2000, 2), ("f06", INT_CFG, "cap8", 600, 6000, 2), ("f06", [("snark", 82, -1, 1)], "cap10dbg", 600, 6000, 2))
P("S01", "seeded values of every printable type; text compared with numerals made by GMP and parsed back through every interface, alone, padded, in sequences, under format flags and global locales; "
  "distinct: the text together with the judged operation",
  ("s01", SAN_CFG, "rel", 800, 8000, 4), ("s01", SAN_CFG, "asan", 120, 1500, 2), ("s01", INT_CFG, "cap8", 600, 6000, 2), ("s01", INT_CFG, "cap16", 500, 5000, 2), ("s01", [("snark", 82, -1, 1)], "cap10dbg", 600, 5000, 2))
P("S02", "mutated, truncated, spliced and random texts, judged by an independent grammar: malformed must throw (or set the fail state), well-formed must give the value; non-trivial: malformed",
  ("s02", SAN_CFG, "rel", 1500, 20000, 4), ("s02", SAN_CFG, "asan", 120, 1500, 2), ("s02", INT_CFG, "cap8", 1000, 10000, 2), ("s02", INT_CFG, "cap16", 1000, 10000, 2), ("s02", [("snark", 82, -1, 1)], "cap10dbg", 1000, 10000, 2))

P("K03", "every operation of the catalogue in mon/ops.hpp: in a process where nothing ran before, then in seeded random orders with junk in the output object, on the stack and in vector registers, repeated, and after "
  "operations that throw; results compared with the first, inputs compared byte for byte after every call, library-owned memory (static objects by symbol table, generated code) with its snapshot; distinct: operation and arguments",
  ("k03", ALL_CFG, "rel", 300, 6000, 3), ("k03", SAN_CFG, "dbg", 100, 1500, 2), ("k03", SAN_CFG, "asan", 50, 500, 2))

P("T01", "threads run the operations of the catalogue on shared inputs: first use in a process by four threads at once, then all threads in the same operation, then all in different ones with random yields; every result compared with "
  "the sequential one, races watched by ThreadSanitizer (C++ code) and by results, input bytes and library-owned memory (generated code too); distinct: first uses and ordered pairs of operations observed running at the same time",
  ("t01", SAN_CFG, "tsan", 600, 8000, 3), ("t01", FEW_CFG, "rel", 800, 12000, 3))

P("K02", "published parameters against their defining equations in GMP and documented values; random sequences of operations and initialisations (every overload, mode, mulx, both curves of the SNARK build) compared with processes "
  "that initialised the curve once; unsupported parameters must end the process with a diagnostic; distinct: result or request",
  ("k02", ALL_CFG, "rel", 400, 8000, 3), ("k02", SAN_CFG, "dbg", 100, 2000, 2), ("k02", SAN_CFG, "asan", 60, 600, 2))

P("M02", "every routine made at run time, called through a trampoline with sentinels in callee-saved registers and junk in all others, operands flush against inaccessible pages or at random places among canaries, inputs in "
  "read-only pages, every allowed aliasing; a share of the calls executed one instruction at a time while everything below the red zone is overwritten; distinct: result, routine, aliasing and place",
  ("m02", ALL_CFG, "rel", 300, 4000, 3))


M01_CFG = [("default", 2, -1, 1), ("default", 2, 1, 0), ("default", 2, 0, 1), ("snark", 3, -1, 1), ("snark", 82, 1, 0), ("snark", 3, 0, 0)]
VG = {"extra": ("-DOPS_VALGRIND",), "wrap": ("valgrind", "--smc-check=all-non-file", "--redzone-size=128", "--error-limit=no", "-q")}
M01_TWO = [("default", 2, -1, 1), ("snark", 3, 1, 0)]
CRASH = {"crash_only": True}
P("M01", "the catalogue in mon/ops.hpp with every input and output in a heap block of its own, under ASan+UBSan+libstdc++ assertions and under memcheck (generated code included; limbs behind a big integer's size and output objects "
  "undefined), and the workloads of the other monitors with other seeds under ASan+UBSan with the library's assertions (only crashes, reports and failed assertions count here); distinct: results and inputs",
  ("m01", M01_CFG, "asan", 3000, 40000, 3), ("m01", M01_CFG, "vg", 150, 3000, 3, VG), ("m01", M01_CFG, "dbg", 3000, 40000, 3), ("m01", M01_CFG[:1], "o0", 1000, 20000, 2),
  ("m01", M01_CFG[:1], "cap10dbg", 1000, 20000, 2), ("m01", M01_CFG[3:4], "cap8", 1000, 20000, 2),
  *[(s_, M01_TWO if s_[0] != "i" else INT_CFG, "asan", q_, q_ * 10, 2, CRASH) for s_, q_ in
    (("f01", 12), ("f02", 40), ("f03", 30), ("f04", 30), ("f05", 30), ("f06", 150), ("g01", 100), ("g02", 50), ("g03", 120), ("g04", 80), ("g05", 100), ("p01", 30), ("p02", 30), ("p03", 40),
     ("i01", 250), ("i02", 250), ("i03", 120), ("s01", 100), ("s02", 100))],
  *[(s_, INT_CFG, "asan", q_, q_ * 10, 2, dict(PRE, **CRASH)) for s_, q_ in (("i01", 250), ("i02", 250), ("i03", 120))])


def check_generic(prop):
    rule, parts, kw = PROPS[prop]
    specs, plan = {}, []
    for k, part in enumerate(parts):
        suite, cfgs, variant, qs, ts, tseeds = part[:6]
        more = part[6] if len(part) > 6 else {}
        more = dict(more)
        crash_only = more.pop("crash_only", False)
        s, r = std_runs(prop, suite, cfgs, variant, qs if TIER == "quick" else ts, salt=k, seeds=1 if TIER == "quick" else tseeds, **more)
        for x in r:
            x["crash_only"] = crash_only
        specs.update(s)
        plan += r
    exes = build(list(specs.values()))
    for r in plan:
        r["exe"] = exes[r["spec"]]
    # the longest first
    plan.sort(key=lambda r: r["variant"] != "asan")
    res = Result()
    work = tempfile.mkdtemp(prefix="mon-%s-" % prop)
    try:
        run_all(plan, work, res, timeout=kw.get("timeout", 180 if TIER == "quick" else 3000))
        # a wrong value in a workload borrowed from another monitor is that monitor's to report
        res.fails = [f for f in res.fails if not f[2].get("crash_only") or f[0].startswith("crash@")]
        return finish(prop, res, rule, ASSUME + kw.get("assume", []), min_evals=kw.get("min_evals", 100))
    finally:
        shutil.rmtree(work, ignore_errors=True)


SPECIAL = {}


def replay(prop, path):
    with open(path) as f:
        rec = json.load(f)
    run = rec["run"]
    if not run or "suite" not in run:
        log("this violation has no single-process replay; run the whole check again")
        return 2
    nm = run["spec"]
    exes = build([(nm, ["suites/%s.cpp" % run["suite"]], run["curve"], run["variant"], tuple(run.get("extra", ())), tuple(run.get("libs", ())))])
    run["exe"] = exes[nm]
    work = tempfile.mkdtemp(prefix="mon-replay-")
    try:
        st, pl = exec_once(run, work, 3000)
    finally:
        shutil.rmtree(work, ignore_errors=True)
    log("replayed %s -> %s" % (run["name"], st))
    if st == "ok":
        for f in pl["fails"]:
            log("  FAILED case %s %s\n    %s" % (f["case"], f["key"], f["detail"][:1500]))
        bad = bool(pl["fails"])
    else:
        log("  %s" % (pl,))
        bad = st in ("crash", "timeout")
    if bad:
        log("VIOLATION property=%s replay=%s" % (prop, path))
    return 1 if bad else 0


def main():
    if len(sys.argv) > 1 and sys.argv[1] == "--setup":
        for t in ("g++", "valgrind", "swig", "javac"):
            log("%s: %s" % (t, shutil.which(t)))
        json.load(open(os.path.join(VERIF, "known_findings.json")))
        return 0 if shutil.which("g++") else 2
    prop = sys.argv[1]
    if len(sys.argv) > 3 and sys.argv[2] == "--replay":
        return replay(prop, sys.argv[3])
    if prop in SPECIAL:
        return SPECIAL[prop](prop)
    return check_generic(prop)


if __name__ == "__main__":
    try:
        from special import register
        register(sys.modules[__name__])
    except ImportError:
        pass
    try:
        rc = main()
    except CheckError as e:
        log("CHECK-ERROR: %s" % e)
        rc = 2
    except Exception:
        import traceback
        log("CHECK-ERROR: %s" % traceback.format_exc())
        rc = 2
    sys.exit(rc)
