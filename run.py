#!/usr/bin/env python3
"""Builds the library from /repo's working tree and decides one property.

  run.py <ID> [quick|thorough]      exit 0: held, 1: VIOLATION, 2: no answer
  run.py --replay <file>            runs one recorded failure again
"""
import glob, json, os, re, shutil, signal, subprocess, sys, tempfile, time
from concurrent.futures import ThreadPoolExecutor

HERE = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("VP_REPO", "/repo")
H = os.path.join(HERE, "harness")
JOBS = os.cpu_count() or 8
# functions of libstdc++ without effects on memory that the library looks at
MSAN_OK = re.compile(r"_Zn[wa]|_Zd[la]|_ZSt\d+__throw_|_ZSt9terminate|_ZSt7nothrow|_ZNSt8ios_base4InitC|_ZNSt8ios_base4InitD|_ZNSt\w*(error|argument|exception|alloc)(C|D)\d|_ZSt21ios_base_library_init|_ZT[IVS]")
QUICK_LIMIT = 720  # seconds for the parts of a quick check
T0 = time.time()

SAN = ["-fsanitize=address,undefined", "-fno-sanitize-recover=all", "-fno-omit-frame-pointer"]
FLAVOURS = {
    "fast": dict(cxx="g++", lib=["-O2", "-g1", "-fsemantic-interposition"], h=["-O1", "-g1", "-DVP_MALLOC", "-DVP_STDIO"], link=[]),
    "asan": dict(cxx="clang++", lib=["-O1", "-g1", "-fsemantic-interposition"] + SAN, h=["-O1", "-g1", "-DVP_SAN"] + SAN + ["-fno-sanitize=function"], link=["-fsanitize=address,undefined"]),
    "tsan": dict(cxx="clang++", lib=["-O1", "-g1", "-fsemantic-interposition", "-fsanitize=thread"], h=["-O1", "-g1", "-DVP_SAN", "-DVP_THREADS", "-fsanitize=thread"], link=["-fsanitize=thread"]),
    "fuzz": dict(cxx="clang++", lib=["-O1", "-g1", "-fsemantic-interposition", "-fsanitize=fuzzer-no-link"] + SAN, h=["-O1", "-g1", "-DVP_SAN", "-DVP_LIBFUZZER"] + SAN + ["-fno-sanitize=function"], link=["-fsanitize=fuzzer,address,undefined"]),
    "cov": dict(cxx="g++", lib=["-O1", "-g1", "-fsemantic-interposition", "-fsanitize-coverage=trace-pc"], h=["-O1", "-g1", "-DVP_COV"], link=[]),
    # the harness is not instrumented, the library and the interposers are
    "msan": dict(cxx="clang++", lib=["-O1", "-g1", "-fsemantic-interposition", "-fno-omit-frame-pointer", "-fsanitize=memory"], h=["-O1", "-g1", "-DVP_SAN", "-DVP_MSAN"], inter=["-fsanitize=memory"], link=["-fsanitize=memory"]),
    # threads on the plain build: no allocator or counter interposition
    "thr": dict(cxx="g++", lib=["-O2", "-g1", "-fsemantic-interposition"], h=["-O1", "-g1", "-DVP_THREADS"], link=[]),
}
# check -> list of (flavour, harness source files, part[, options])
from checks import CHECKS, PROPERTY_RULES, LEVEL, ASSUMPTIONS

ENV = dict(os.environ)
ENV.update(
    ASAN_OPTIONS="exitcode=99:detect_leaks=0:allocator_may_return_null=1:abort_on_error=0:detect_stack_use_after_return=0:handle_abort=0:max_allocation_size_mb=8192:quarantine_size_mb=24:thread_local_quarantine_size_kb=64",
    UBSAN_OPTIONS="print_stacktrace=1:exitcode=99",
    TSAN_OPTIONS="exitcode=99:halt_on_error=1:report_thread_leaks=0",
    MSAN_OPTIONS="exit_code=99:allocator_may_return_null=1:abort_on_error=0:poison_in_dtor=0",
    LC_ALL="C",
)


def sh(cmd, **kw):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace", **kw)


class NoAnswer(Exception):
    pass


class Builder:
    def __init__(self, tmp):
        self.tmp = tmp
        self.notes = []

    def build(self, jobs):
        """jobs: list of (flavour, tuple of TUs). Returns {job: exe or None}."""
        srcs = sorted(glob.glob(REPO + "/src/*.cpp"))
        if not srcs:
            raise NoAnswer("no sources in " + REPO + "/src")
        todo = {}
        flavours = sorted({f for f, _ in jobs})
        libobj = {f: [] for f in flavours}
        for f in flavours:
            d = os.path.join(self.tmp, f)
            os.makedirs(d, exist_ok=True)
            F = FLAVOURS[f]
            for s in srcs:
                o = os.path.join(d, "lib_" + os.path.basename(s) + ".o")
                libobj[f].append(o)
                todo[o] = (True, [F["cxx"], "-std=c++11", "-w", "-fPIC", "-I" + REPO + "/include"] + F["lib"] + ["-c", s, "-o", o])
        tus = {}
        for f, names in jobs:
            for nme in names + ("vp_main.cpp", "inter.cpp"):
                o = os.path.join(self.tmp, f, "h_" + nme + ".o")
                tus[(f, nme)] = o
                F = FLAVOURS[f]
                todo[o] = (False, [F["cxx"], "-std=c++17", "-w", "-I" + REPO + "/include", "-I" + H] + F["h"] + (F.get("inter", []) if nme == "inter.cpp" else []) + ["-c", os.path.join(H, nme), "-o", o])
        for o in [x for x in todo if x.endswith("cli.o")]:
            pass
        # the largest first
        order = sorted(todo, key=lambda o: -os.path.getsize(todo[o][1][-3]))
        res = {}
        with ThreadPoolExecutor(JOBS) as ex:
            for o, r in zip(order, ex.map(lambda o: sh(todo[o][1]), order)):
                res[o] = r
        for o, r in list(res.items()):
            if r.returncode != 0 and o.endswith("h_inter.cpp.o"):
                res[o] = sh(todo[o][1] + ["-DVP_PLAIN"])
                self.notes.append("internals renamed: the parts that place storage or force a width have no such effect")
        for o, r in res.items():
            if r.returncode != 0:
                if todo[o][0]:
                    raise NoAnswer("the library does not compile:\n" + r.stdout[:3000])
                self.notes.append("harness unit %s does not compile against this tree: %s" % (os.path.basename(o), r.stdout[:1500]))
        out = {}
        for f in flavours:
            F = FLAVOURS[f]
            so = os.path.join(self.tmp, f, "libsut.so")
            r = sh([F["cxx"], "-shared", "-o", so] + libobj[f] + [x for x in F["link"] if not x.startswith("-fsanitize=fuzzer") or True and f != "fuzz"] + (["-fsanitize=address,undefined"] if f == "fuzz" else []))
            if r.returncode != 0:
                raise NoAnswer("the library does not link:\n" + r.stdout[:3000])
            if f == "msan":
                # memory that a library without instrumentation writes looks unwritten
                r = sh(["nm", "-D", "--undefined-only", so])
                bad = [l.split()[-1] for l in r.stdout.splitlines() if "GLIBCXX" in l and not MSAN_OK.match(l.split()[-1])]
                if r.returncode or bad:
                    self.notes.append("the library uses functions of libstdc++ that keep state (%s): reads of unwritten memory were not decided" % " ".join(bad[:3]))
                    out.update({(f2, n): None for f2, n in jobs if f2 == f})
        for f, names in jobs:
            F = FLAVOURS[f]
            if (f, names) in out:
                continue
            objs = [tus[(f, n)] for n in names + ("vp_main.cpp", "inter.cpp") if res[tus[(f, n)]].returncode == 0]
            core = [tus[(f, n)] for n in ("vp_main.cpp",)]
            if any(res[o].returncode for o in core):
                raise NoAnswer("engine does not compile:\n" + res[core[0]].stdout[:3000])
            if not any(res[tus[(f, n)]].returncode == 0 for n in names):
                out[(f, names)] = None
                continue
            exe = os.path.join(self.tmp, f, "hx_" + "_".join(n[:-4] for n in names))
            r = sh([F["cxx"], "-o", exe] + objs + ["-rdynamic", "-Wl,--no-as-needed", "-L" + os.path.join(self.tmp, f), "-lsut", "-Wl,-rpath," + os.path.join(self.tmp, f)] + F["link"] + ["-ldl", "-lpthread"])
            if r.returncode != 0:
                self.notes.append("harness %s does not link against this tree: %s" % (exe, r.stdout[:1500]))
                out[(f, names)] = None
            else:
                out[(f, names)] = exe
        return out

    def build_cli(self):
        """the example program, linked against the plain library"""
        exe = os.path.join(self.tmp, "bwt")
        srcs = sorted(glob.glob(REPO + "/src/*.cpp"))
        exs = sorted(glob.glob(REPO + "/examples/*.cpp"))
        objs = []
        cmds = []
        for s in srcs + exs:
            o = os.path.join(self.tmp, "cli_" + os.path.basename(s) + ".o")
            objs.append(o)
            cmds.append(["g++", "-std=c++11", "-w", "-O1", "-g1", "-I" + REPO + "/include", "-c", s, "-o", o])
        with ThreadPoolExecutor(JOBS) as ex:
            for c, r in zip(cmds, ex.map(sh, cmds)):
                if r.returncode:
                    raise NoAnswer("the program does not compile:\n" + r.stdout[:3000])
        r = sh(["g++", "-o", exe] + objs)
        if r.returncode:
            raise NoAnswer("the program does not link:\n" + r.stdout[:3000])
        return exe


def known_findings():
    out = []
    p = os.path.join(HERE, "KNOWN-FINDINGS.txt")
    if os.path.exists(p):
        for l in open(p):
            m = re.match(r"finding: property=(\S+) part=(\S+) match=(\"[^\"]*\") (.*)", l)
            if m:
                out.append((m[1], m[2], m[3].strip('"'), m[4].strip()))
    return out


def run_part(exe, part, tier, seed, outdir, opts):
    os.makedirs(outdir, exist_ok=True)
    cmd = [exe, "--part", part, "--out", outdir, "--tier", tier, "--seed", str(seed), "--workers", str(JOBS),
           "--budget", str(opts.get("budget_thorough", 3600) if tier == "thorough" else opts.get("budget", 240))]
    if tier != "thorough":  # the whole check answers within its 900 s
        left = max(20, QUICK_LIMIT - (time.time() - T0))
        cmd += ["--hard", "%d" % left]
    cmd += ["--scale", str(float(os.environ.get("VP_SCALE", 1)) * opts.get("scale", 1))]
    r = sh(cmd, env=ENV)
    p = os.path.join(outdir, "result.json")
    if not os.path.exists(p):
        raise NoAnswer("part %s gave no result (exit %d): %s" % (part, r.returncode, r.stdout[-2000:]))
    return json.load(open(p))


def run_fuzz(exe, part, tier, seed, outdir, opts):
    """coverage-guided search; deterministic number of executions per process"""
    os.makedirs(outdir, exist_ok=True)
    runs = opts["runs_thorough" if tier == "thorough" else "runs"]
    if os.environ.get("VP_SCALE"):
        runs = max(50, int(runs * float(os.environ["VP_SCALE"])))
    procs = []
    t0 = time.time()
    for w in range(JOBS):
        d = os.path.join(outdir, "w%d" % w)
        os.makedirs(d + "/corpus")
        e = dict(ENV, VP_PART=part)
        if w % 2:  # half of the processes start from a few small inputs
            for i in range(12):
                b = bytes((i * 37 + j * (11 + i) + w) % 251 for j in range(20 + 17 * i))
                open(d + "/corpus/seed%d" % i, "wb").write(b)
        cmd = [exe, "-runs=%d" % runs, "-seed=%d" % (seed * 100 + w + 1), "-max_len=%d" % opts.get("max_len", 600), "-timeout=600", "-rss_limit_mb=0",
               "-malloc_limit_mb=0", "-artifact_prefix=" + d + "/", "-print_final_stats=1", "-close_fd_mask=0", "-detect_leaks=0", "-len_control=20", d + "/corpus"]
        procs.append((w, d, subprocess.Popen(cmd, env=e, stdout=open(d + "/log", "w"), stderr=subprocess.STDOUT)))
    res = dict(part=part, rule=opts["rule"], ran=0, nontrivial=0, distinct=0, labels={}, samples=[], inconclusive=False, failed=False, requested=runs * JOBS)
    bad = None
    for w, d, p in procs:
        p.wait()
        log = open(d + "/log", errors="replace").read()
        m = re.search(r"number_of_executed_units: (\d+)", log)
        if m:
            res["ran"] += int(m[1])
        m = re.findall(r"cov: (\d+) ft: (\d+) corp: (\d+)", log)
        if m:
            res["labels"]["w%d edges/features/corpus" % w] = "/".join(m[-1])
            res["nontrivial"] += int(m[-1][2])
        arts = [a for a in glob.glob(d + "/*-*") if os.path.basename(a).split("-")[0] in ("crash", "leak")]
        if arts and bad is None:
            bad = (arts[0], log)
        files = sorted(glob.glob(d + "/corpus/*"), key=os.path.getsize)
        if files:
            res["samples"].append("corpus entry " + open(files[len(files) // 2], "rb").read().hex()[:200])
    res["distinct"] = res["nontrivial"]
    if bad:
        def again(path):
            return sh([exe, path], env=dict(ENV, VP_PART=part))
        rs = [again(bad[0]) for _ in range(3)]
        if all(r.returncode != 0 for r in rs):
            # libFuzzer's own minimiser, bounded
            best = bad[0]
            mn = os.path.join(outdir, "min")
            sh([exe, "-minimize_crash=1", "-runs=3000", "-max_total_time=40", "-exact_artifact_path=" + mn, "-detect_leaks=0", best], env=dict(ENV, VP_PART=part))
            if os.path.exists(mn) and all(again(mn).returncode != 0 for _ in range(3)):
                best = mn
            r = again(best)
            m = re.search(r"VP-FAIL: (.*)|(ERROR: AddressSanitizer[^\n]*)|(runtime error[^\n]*)", r.stdout)
            shutil.copy(best, os.path.join(outdir, "failure.choices"))
            res.update(failed=True, kind="fuzz", mode="choices", message=(m.group(0) if m else "crash")[:500], log=r.stdout[-3000:], notes="")
        else:
            res["labels"]["unreproduced crash"] = 1
    res["wall_s"] = time.time() - t0
    return res


def main():
    args = sys.argv[1:]
    if args and args[0] == "--replay":
        return replay(args[1])
    pid = args[0]
    tier = args[1] if len(args) > 1 else os.environ.get("VERIF_TIER", "quick")
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    t0 = time.time()
    tmp = tempfile.mkdtemp(prefix="vp_%s_" % pid, dir=os.environ.get("VP_TMP", "/tmp"))

    def cleanup(*a):
        shutil.rmtree(tmp, ignore_errors=True)
        if a:
            os._exit(2)
    signal.signal(signal.SIGTERM, cleanup)
    try:
        return check(pid, tier, seed, tmp, t0)
    except NoAnswer as e:
        print("NO-ANSWER property=%s %s" % (pid, e))
        return 2
    finally:
        cleanup()


def select(pid, tier):
    return [c for c in CHECKS[pid] if tier == "thorough" or not c[3].get("thorough_only")]


def check(pid, tier, seed, tmp, t0):
    b = Builder(tmp)
    todo = [tuple(c) if len(c) > 3 else tuple(c) + ({},) for c in CHECKS[pid]]
    todo = [c for c in todo if tier == "thorough" or not c[3].get("thorough_only")]
    if os.environ.get("VP_ONLY"):
        todo = [c for c in todo if c[2] in os.environ["VP_ONLY"].split(",")]
    exes = b.build(sorted({(c[0], tuple(c[1])) for c in todo}))
    if any(c[3].get("cli") for c in todo):
        ENV["VP_CLI"] = b.build_cli()
    t_build = time.time() - t0
    results, violation = [], None
    kf = [k for k in known_findings() if k[0] == pid]
    seen_known = []
    missing = []
    queue = list(todo)
    while queue or missing:
        if not queue:
            # a unit does not fit this tree (internals renamed or removed):
            # decide what is left of the property through the public functions
            queue = [("fast", ["p_core.cpp"], p, {}) for p in ("c01_exh", "c01_rand", "c01_chain") if not os.environ.get("VP_ONLY")]
            b.notes.append("decided through the public functions instead: " + " ".join(missing))
            missing = []
            exes.update(b.build(sorted({(c[0], tuple(c[1])) for c in queue if (c[0], tuple(c[1])) not in exes})) if any((c[0], tuple(c[1])) not in exes for c in queue) else {})
            queue = [c for c in queue if exes[(c[0], tuple(c[1]))] is not None and (c[0], c[2]) not in {(r["flavour"], r["part"]) for r in results}]
            if not queue:
                break
        fl, tus, part, opts = queue.pop(0)
        exe = exes[(fl, tuple(tus))]
        if exe is None:
            b.notes.append("part %s was not run" % part)
            if not opts.get("optional"):
                missing.append(part)
            continue
        out = os.path.join(tmp, "out_%s_%s" % (fl, part))
        if fl == "fuzz":
            r = run_fuzz(exe, part, tier, seed, out, opts)
        else:
            listed = sh([exe, "--list"], env=ENV).stdout
            if not re.search(r"(?m)^%s\t" % re.escape(part), listed):
                b.notes.append("part %s is not in the harness (unit not compiled)" % part)
                missing.append(part)
                continue
            r = run_part(exe, part, tier, seed, out, opts)
        r["flavour"] = fl
        r["tus"] = tus
        results.append(r)
        if r.get("failed"):
            known = [k for k in kf if k[1] == part and k[2] in r.get("message", "")]
            if known:
                seen_known.append(known[0])
                continue
            ch = os.path.join(out, "failure.choices")
            data = open(ch, "rb").read().hex() if os.path.exists(ch) else None
            os.makedirs(os.path.join(HERE, "replays"), exist_ok=True)
            rp = os.path.join(HERE, "replays", "%s-%s-%s-seed%d.json" % (pid, fl, part, seed))
            json.dump(dict(property=pid, part=part, flavour=fl, tus=tus, tier=tier, seed=seed, mode=r.get("mode"), kind=r.get("kind"), message=r.get("message"),
                           notes=r.get("notes"), log=r.get("log"), choices=data, history="%s/%s/%s" % (r.get("worker"), r.get("workers"), r.get("case")),
                           cli=bool(opts.get("cli")), run="python3 run.py --replay " + rp), open(rp, "w"), indent=1)
            violation = (rp, r)
            break
    if not results:
        raise NoAnswer("nothing could be run: " + "; ".join(b.notes))
    cov = dict(
        evaluations=sum(r["ran"] for r in results),
        distinct_nontrivial=sum(r["distinct"] for r in results),
        rule=PROPERTY_RULES.get(pid, "") + " Parts: " + " | ".join("%s: %s" % (r["part"], r["rule"]) for r in results),
        samples=[s for r in results for s in r.get("samples", [])[:3]][:12],
        parts=[{k: r.get(k) for k in ("part", "flavour", "requested", "ran", "nontrivial", "distinct", "labels", "wall_s", "inconclusive", "inconclusive_why", "stopped_by_budget", "unreproduced", "first_message", "failed", "message")} for r in results],
        build_s=round(t_build, 1),
        notes=b.notes,
    )
    ev = dict(property=pid, tier=tier if tier in ("quick", "thorough") else "quick", seed=seed, level=LEVEL.get(pid, "exploration"), coverage=cov,
              assumptions=ASSUMPTIONS.get(pid, []), wall_s=round(time.time() - t0, 1), violations=1 if violation else 0)
    os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
    json.dump(ev, open(os.path.join(HERE, "evidence", pid + ".json"), "w"), indent=1)
    for n in b.notes:
        print("note: " + n.split("\n")[0][:300])
    for k in kf:
        print("KNOWN-FINDING: property=%s %s" % (pid, k[3]))
    for r in results:
        print("%s %s: %d cases, %d non-trivial (%d distinct), %.1fs%s%s" % (pid, r["part"], r["ran"], r["nontrivial"], r["distinct"], r["wall_s"], " INCONCLUSIVE " + r.get("inconclusive_why", "") if r.get("inconclusive") else "", " UNREPRODUCED " + r.get("first_message", "") if r.get("unreproduced") else ""))
    if violation:
        rp, r = violation
        print("%s: %s\n%s" % (r["part"], r.get("message"), (r.get("notes") or "")[:1500]))
        print("VIOLATION property=%s replay=%s" % (pid, rp))
        return 1
    print("%s %s: held on everything explored (%.1fs)" % (pid, tier, time.time() - t0))
    return 0


def replay(path):
    d = json.load(open(path))
    tmp = tempfile.mkdtemp(prefix="vp_replay_", dir=os.environ.get("VP_TMP", "/tmp"))
    try:
        b = Builder(tmp)
        key = (d["flavour"], tuple(d["tus"]))
        exe = b.build([key])[key]
        if exe is None:
            print("\n".join(b.notes))
            return 2
        if d.get("cli"):
            ENV["VP_CLI"] = b.build_cli()
        out = os.path.join(tmp, "out")
        os.makedirs(out)
        if d["mode"] == "choices":
            f = os.path.join(tmp, "choices")
            open(f, "wb").write(bytes.fromhex(d["choices"]))
            if d["flavour"] == "fuzz":
                r = subprocess.run([exe, f], env=dict(ENV, VP_PART=d["part"]))
            else:
                r = subprocess.run([exe, "--part", d["part"], "--out", out, "--tier", d["tier"], "--seed", str(d["seed"]), "--replay", f], env=ENV)
        else:
            r = subprocess.run([exe, "--part", d["part"], "--out", out, "--tier", d["tier"], "--seed", str(d["seed"]), "--history", d["history"]], env=ENV)
        if r.returncode:
            print("VIOLATION property=%s replay=%s" % (d["property"], path))
            return 1
        return 0
    finally:
        shutil.rmtree(tmp, ignore_errors=True)


if __name__ == "__main__":
    sys.path.insert(0, HERE)
    sys.exit(main())
