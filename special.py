"""Properties that are decided by comparing or supervising several processes."""
import os, shutil, subprocess, tempfile, concurrent.futures, re, hashlib, time

C = None  # the check module


def hidden(res, run, key, detail):
    res.fails.append((key, detail, run, None))


# ---------------------------------------------------------------- K01
def k01_runs():
    """(group, name, spec tuple, args); the first of each group is the reference"""
    runs, specs = [], {}
    for curve, b in (("default", 2), ("snark", 3), ("snark", 82)):
        def add(tag, variant, mode, mulx, extra=(), more=None, scale=None):
            nm = "k01-%s-%s" % (curve, tag)
            specs[nm] = (nm, ["suites/k01.cpp"], curve, variant, tuple(extra), (), more or {})
            runs.append((curve + str(b), "%s b=%d %s mode=%d mulx=%d" % (curve, b, tag, mode, mulx), nm, b, mode, mulx, variant))
        add("rel", "rel", -1, 1)
        for m in (-1, 0, 1):
            for x in (1, 0):
                if (m, x) != (-1, 1):
                    add("rel", "rel", m, x)
        add("o0", "o0", 1, 1)
        add("o2", "o2", 0, 1)
        add("dbg", "dbg", -1, 0)
        add("dbg", "dbg", 1, 1)
        add("cap8", "cap8", 1, 0)
        add("cap8", "cap8", 0, 1)
        add("cap16", "cap16", 0, 0)
        if curve == "default" or b == 82:
            add("cap600", "cap600", -1, 0)
        add("cap10dbg", "cap10dbg", 1, 1)
        add("asan", "asan", 0, 1)
        add("nogmp", "rel", 0, 0, more={"nogmp": True})
        add("native", "rel", 1, 1, more={"all": ("-march=native",)})
        if shutil.which("clang++"):
            add("clang", "o2", -1, 1, more={"cxx": "clang++"})
            add("clangO3", "o2", 1, 0, more={"cxx": "clang++", "all": ("-O3", "-march=native")})
    # integers of up to sixteen words, which only builds with a large capacity can hold, as a group of their own
    for tag, variant in (("cap16", "cap16"), ("cap16asan", "cap16asan"), ("cap64", "cap64")):
        nm = "k01-wide-" + tag
        specs[nm] = (nm, ["suites/k01.cpp"], "default", variant, ("-DK01_WIDE",), (), {})
        runs.append(("wide", "wide %s" % tag, nm, 2, -1, 1, variant))
    return specs, runs


def k01(prop):
    res = C.Result()
    specs, runs = k01_runs()
    exes = C.build(list(specs.values()))
    work = tempfile.mkdtemp(prefix="mon-K01-")
    seeds = [C.SEED * 100 + 1] if C.TIER == "quick" else [C.SEED * 100 + i for i in range(1, 9)]
    scale = 100 if C.TIER == "quick" else 600
    limit = 150 if C.TIER == "quick" else 3000
    late = []

    def one(job):
        (group, name, spec, b, mode, mulx, variant), seed = job
        out = os.path.join(work, hashlib.sha256((name + str(seed)).encode()).hexdigest()[:16])
        args = ["--seed", str(seed), "--scale", str(scale), "--mode", str(mode), "--mulx", str(mulx), "--b", str(b), "--out", out]
        run = {"name": "%s seed=%d" % (name, seed), "spec": spec, "args": args, "tool": "transcript"}
        t = time.time()
        try:
            if len(late) > 1:
                return None
            p = subprocess.run([exes[spec]] + args, cwd=work, stdin=subprocess.DEVNULL, capture_output=True, timeout=limit)
            rc, err = p.returncode, (p.stdout + p.stderr).decode("utf-8", "replace")
        except subprocess.TimeoutExpired:
            rc, err = "timeout", ""
            late.append(1)
        run["wall"] = time.time() - t
        lines = []
        if os.path.exists(out):
            with open(out) as f:
                lines = [l.split() for l in f]
        return group, seed, run, rc, err, [l for l in lines if len(l) == 4]

    jobs = sorted(((r, s) for r in runs for s in seeds), key=lambda j: j[0][6] not in ("asan", "o0", "cap16asan"))
    with concurrent.futures.ThreadPoolExecutor(C.JOBS) as ex:
        done = [d for d in ex.map(one, jobs) if d]  # two that hang say enough
    try:
        order = {r[1]: i for i, r in enumerate(runs)}
        done.sort(key=lambda d: (d[1], order[d[2]["name"].rsplit(" seed=", 1)[0]]))
        ref = {}
        for group, seed, run, rc, err, lines in done:
            ok = rc == 0 and lines and lines[-1][0] == "end"
            if rc == -9:
                raise C.CheckError("killed: %s" % run["name"])
            if not ok:
                brief = re.search(r"(ERROR: AddressSanitizer[^\n]*|[^\n]*runtime error:[^\n]*|[^\n]*Assertion[^\n]*failed)", err)
                hidden(res, run, "died@%s after %s: %s" % (group, lines[-1][0] if lines else "nothing", re.sub(r"==\d+==|0x[0-9a-f]{6,}.*", "", brief.group(1)) if brief else rc),
                       "this configuration did not finish the transcript that others finish (status %s)\n%s" % (rc, err[-2000:]))
            d = {}
            for name, rnd, reps, h in lines[:-1] if ok else lines:
                d[(name, rnd)] = (int(reps), h)
            n = 0
            if (group, seed) not in ref:
                ref[(group, seed)] = (d, run["name"])
            rd, rname = ref[(group, seed)]
            inputs_differ = False
            for key, (reps, h) in d.items():
                if key not in rd:
                    continue
                n += reps
                res.counters["compared " + key[0]] = res.counters.get("compared " + key[0], 0) + reps
                if rd[key][1] != h and not inputs_differ:
                    hidden(res, run, "differs: %s" % key[0], "%s round %s: %d results hash to %s here and to %s in %s" % (key[0], key[1], reps, h, rd[key][1], rname))
                    inputs_differ = key[0] == "inputs"  # everything after it differs too
            if run["name"] != rname:
                res.evaluations += n
                res.cases += len(d)
            else:
                res.distinct += n
            res.runs.append({"config": run["name"], "evaluations": n, "distinct": n if run["name"] == rname else 0, "wall_s": round(run["wall"], 2)})
        res.samples = [{"config": done[0][2]["name"], "case": " ".join(l)} for l in done[0][5][:12]]
        return C.finish(prop, res, "every operation of the catalogue in mon/ops.hpp on the same seeded edge-biased inputs in every configuration; the hash of each group of results is compared with the "
                        "reference configuration's; distinct: results of the reference configuration", C.ASSUME + ["this processor (with BMI2) decides which of the generated variants run; mulx can only be switched off, not on"], min_evals=100000,
                        extra={"configurations": len(runs)})
    finally:
        shutil.rmtree(work, ignore_errors=True)


# ---------------------------------------------------------------- J01
JVM_ASAN = "handle_segv=0:handle_sigbus=0:handle_sigfpe=0:handle_abort=0:detect_leaks=0:allow_user_segv_handler=1:max_free_fill_size=4096:free_fill_byte=29:max_malloc_fill_size=4096"


def j01_wrappers(work):
    """the SWIG wrapper as three libraries, the Java classes and the driver -> (class path, {variant: library directory}, failure text)"""
    jdir, inc = os.path.join(work, "gen"), os.path.join(os.path.dirname(os.path.dirname(os.path.realpath(shutil.which("javac")))), "include")
    os.makedirs(os.path.join(jdir, "mcl", "bn254"))
    wrap = os.path.join(work, "wrap.cxx")
    rc, out = C.run_tool(["swig", "-java", "-package", "mcl.bn254", "-outdir", os.path.join(jdir, "mcl", "bn254"), "-c++", "-o", wrap, C.REPO + "/java/bn254_if.i"])
    if rc:
        raise C.CheckError("swig failed:\n" + out[-2000:])
    flags = ["-std=gnu++11", "-march=x86-64", "-mtune=generic", "-w", "-shared", "-fPIC", "-I" + inc, "-I" + inc + "/linux", "-I" + C.REPO + "/include", "-I" + C.REPO + "/java"]
    kinds = {"rel": ["-O3", "-fomit-frame-pointer", "-DNDEBUG"], "dbg": ["-O1"], "asan": ["-O1", "-g1", "-fsanitize=address", "-D_GLIBCXX_ASSERTIONS"]}
    dirs = {}

    def lib(kind):
        d = os.path.join(work, kind)
        os.makedirs(d)
        rc, out = C.run_tool(["g++"] + flags + kinds[kind] + [wrap, C.REPO + "/src/zm.cpp", C.REPO + "/src/zm2.cpp", "-o", os.path.join(d, "libbn254_if_wrap.so"), "-lgmpxx", "-lgmp"])
        if rc:
            raise C.CheckError("the wrapper does not compile:\n" + "\n".join(l for l in out.splitlines() if "error" in l)[:2000])
        dirs[kind] = d

    with concurrent.futures.ThreadPoolExecutor(3) as ex:
        list(ex.map(lib, kinds))
    cls = os.path.join(work, "cls")
    gen = [os.path.join(jdir, "mcl", "bn254", f) for f in sorted(os.listdir(os.path.join(jdir, "mcl", "bn254")))]
    rc, out = C.run_tool(["javac", "-nowarn", "-d", cls] + gen)
    if rc:
        raise C.CheckError("the generated classes do not compile:\n" + out[-2000:])
    rc, out = C.run_tool(["javac", "-nowarn", "-cp", cls, "-d", cls, os.path.join(C.MON, "java", "Drive.java")])
    return cls, dirs, out if rc else ""


def j01(prop):
    quick = C.TIER == "quick"
    work = tempfile.mkdtemp(prefix="mon-J01-")
    res = C.Result()
    spec = ("j01-check", ["suites/j01.cpp"], "default", "o2", (), ())
    try:
        with concurrent.futures.ThreadPoolExecutor(2) as ex:
            fe, fw = ex.submit(C.build, [spec]), ex.submit(j01_wrappers, work)
            exe, (cls, dirs, failed) = fe.result()["j01-check"], fw.result()
        if failed:
            hidden(res, {"name": "javac"}, "documented interface", "a program using the documented classes does not compile against the generated ones:\n" + failed[-3000:])
        jobs = []
        for i in range(12 if quick else 120):
            kind = ("rel", "asan", "dbg")[i % 3]
            threads, gc = (4, 1, 2)[(i // 3) % 3], (300, 0, 2000, 100)[i % 4]
            steps = (12000 if kind != "asan" else 5000) * (1 if quick else 3)
            jobs.append((kind, threads, gc, steps, ["-Xcheck:jni"] if i % 5 == 0 else ["-Xint"] if i % 7 == 3 else [], C.SEED * 10007 + i))

        def jvm(job):
            kind, threads, gc, steps, opts, seed = job
            d = os.path.join(work, "run%d" % seed)
            os.makedirs(d)
            name = "jvm %s threads=%d gc=%d steps=%d %s seed=%d" % (kind, threads, gc, steps, " ".join(opts), seed)
            run = {"name": name, "tool": "java"}
            env = dict(os.environ, LC_ALL="C")
            env.pop("JAVA_TOOL_OPTIONS", None)
            if kind == "asan":
                so = [subprocess.run(["g++", "-print-file-name=" + n], capture_output=True, text=True).stdout.strip() for n in ("libasan.so", "libstdc++.so.6")]
                env.update(LD_PRELOAD=" ".join(so), ASAN_OPTIONS=JVM_ASAN)
            cmd = ["java", "-Xmx96m", "-Xss1m"] + opts + ["-Djava.library.path=" + dirs[kind], "-cp", cls, "Drive", os.path.join(d, "log"), str(seed), str(steps), str(threads), str(gc)]
            t, fails, stats = time.time(), [], []
            try:
                p = subprocess.run(cmd, cwd=d, env=env, stdin=subprocess.DEVNULL, capture_output=True, timeout=200 if quick else 3000)
                rc, out = p.returncode, (p.stdout + p.stderr).decode("utf-8", "replace")
            except subprocess.TimeoutExpired:
                rc, out = "timeout", ""
            if rc == -9 or "Error occurred during initialization of VM" in out or "insufficient memory" in out:
                raise C.CheckError("no virtual machine: %s %s" % (name, out[-500:]))
            hs = "".join(open(os.path.join(d, f), errors="replace").read()[:3000] for f in os.listdir(d) if f.startswith("hs_err"))
            if rc != 0 or "DONE" not in out:
                m = re.search(r"(ERROR: AddressSanitizer: [^ ]*|[^\n]*Assertion [^\n]* failed|SIG[A-Z]+ |Exception in [^\n]*|java\.lang\.[A-Za-z]*)", out + hs)
                fails.append(("the virtual machine ended: %s" % (re.sub(r"[^\n]*: ([^\n]*Assertion)", r"\1", m.group(1)).strip() if m else rc), "status %s\n%s\n%s" % (rc, out[-2500:], hs[:1500])))
            for k in range(threads):
                log = os.path.join(d, "log.%d" % k)
                if not os.path.exists(log):
                    continue
                run2 = {"name": "%s thread %d" % (name, k), "tool": "java"}
                t2 = time.time()
                q = subprocess.run([exe, "--seed", str(seed), "--scale", "100", "--opt", log, "--b", "2"], cwd=d, stdin=subprocess.DEVNULL, capture_output=True, timeout=1500)
                if q.returncode != 0:
                    tail = subprocess.run(["tail", "-n", "3", log], capture_output=True).stdout.decode("utf-8", "replace")[-1500:]
                    if fails:
                        fails.append(("log", "not readable after the failure above"))
                        continue
                    raise C.CheckError("log checker: status %d %s\n%s" % (q.returncode, q.stderr.decode()[-600:], tail))
                import json
                run2["wall"] = time.time() - t2
                stats.append((json.loads(q.stdout), run2))
            run["wall"] = time.time() - t
            shutil.rmtree(d, ignore_errors=True)
            return run, fails, stats

        if not failed:
            with concurrent.futures.ThreadPoolExecutor(max(2, C.JOBS // 2 + 1)) as ex:
                for run, fails, stats in ex.map(jvm, jobs):
                    for key, detail in fails:
                        hidden(res, run, key, detail)
                    for js, run2 in stats:
                        res.merge(js, run2)
        return C.finish(prop, res, "seeded random sequences over the documented classes in real virtual machines (release, debug and AddressSanitizer builds of the wrapper; one to four threads; forced garbage collections; checked JNI), every "
                        "operation logged; an offline checker with its own model of every object (GMP reference) judges each outcome and text; distinct: log lines", C.ASSUME + ["the Java virtual machine and SWIG's generated marshalling of strings and ints are right"],
                        min_evals=10000, extra={"jvms": len(jobs)})
    finally:
        shutil.rmtree(work, ignore_errors=True)


def register(check):
    global C
    C = check
    check.SPECIAL.update({"K01": k01, "J01": j01})
