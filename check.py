#!/usr/bin/env python3
"""Driver of the deterministic simulator.

  check.py setup                 build every variant of the simulator from /repo's working tree
  check.py check PROP            run the check of one property (VERIF_SEED, VERIF_TIER from the environment)
  check.py replay FILE           re-execute a replay file; exit 1 if the violation is reproduced exactly
  check.py run PROP SEED [TIER]  execute one seed and print the simulator's result
  check.py gen PROP SEED [TIER]  print the plan of one seed

Exit codes of check: 0 held on everything explored, 1 VIOLATION, 2 the check itself could not decide.
"""
import concurrent.futures as cf
import hashlib, json, os, re, shutil, subprocess, sys, tempfile, time

VERIF = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("SIM_REPO", "/repo")
BUILD = os.path.join(VERIF, "build")
EVID = os.path.join(VERIF, "evidence")
JOBS = 8

BASE = ["-std=c++17", "-I%s/include" % REPO, "-I/usr/include/eigen3", "-DFMT_HEADER_ONLY",
        "-DMINI_OPT_SERIALIZATION", "-DEIGEN_NO_DEBUG", "-g1"]
WRAP = ("malloc calloc realloc free _Znwm _Znam _ZnwmRKSt9nothrow_t _ZnamRKSt9nothrow_t _ZdlPv _ZdaPv _ZdlPvm "
        "_ZdaPvm _ZdlPvRKSt9nothrow_t _ZdaPvRKSt9nothrow_t clock_gettime gettimeofday time "
        "_ZNSt6chrono3_V212system_clock3nowEv _ZNSt6chrono3_V212steady_clock3nowEv").split()
WRAP_SCHED = ("pthread_mutex_lock pthread_mutex_trylock pthread_mutex_unlock pthread_rwlock_rdlock "
              "pthread_rwlock_wrlock pthread_rwlock_tryrdlock pthread_rwlock_trywrlock pthread_rwlock_unlock "
              "pthread_cond_wait pthread_cond_signal pthread_cond_broadcast pthread_once __cxa_guard_acquire "
              "__cxa_guard_release __cxa_guard_abort syscall getpid gettid sched_yield nanosleep memcpy memmove "
              "memset").split()
TSAN = ["-fsanitize=thread", "-fno-builtin-memcpy", "-fno-builtin-memmove", "-fno-builtin-memset"]
COMMON = ["core", "main", "table", "nls", "nls_oracles", "nls_props", "qp_world"]
VARIANTS = {
    # everything single-threaded
    "plain": dict(
        flags=BASE + ["-O1", "-DNDEBUG"],
        sim={f: [] for f in COMMON + ["sched_stub", "store_world", "reject_world", "accum_world", "thread_world"]}, lib=[],
        link=["-static", "-pthread"], wrap=WRAP),
    # every memory access, lock, atomic and static guard of the library is a scheduling point
    "sched": dict(
        flags=BASE + ["-DNDEBUG", "-DMINI_OPT_TRACING", "-DSIM_SCHED"],
        sim={**{f: ["-O1"] + TSAN for f in ["nls", "nls_oracles", "nls_props", "qp_world", "thread_world"]},
             **{f: ["-O2", "-fno-tree-loop-distribute-patterns"] for f in ["core", "main", "table", "sched", "thread_check"]}},
        lib=["-O1"] + TSAN, private=["core", "main", "table", "sched", "thread_check"],
        link=["-static"], wrap=WRAP + WRAP_SCHED,
        tail=["-Wl,--whole-archive", "-lpthread", "-Wl,--no-whole-archive"]),
    # address-checked, library assertions and JSON assertions on, tracing compiled out
    "asan": dict(
        flags=BASE + ["-O1", "-D_GLIBCXX_ASSERTIONS", "-DSIM_ASAN", "-fsanitize=address", "-fno-omit-frame-pointer"],
        sim={f: [] for f in COMMON + ["sched_stub", "store_world", "reject_world", "accum_world"]}, lib=[],
        link=["-fsanitize=address", "-static-libstdc++", "-static-libasan", "-pthread"], wrap=WRAP),
}

# property -> [(variant, quick runs, thorough seconds)]
PROPS = {
    "C01": [("sched", 12000, 540)],
    "C02": [("sched", 48000, 420)],
    "C03": [("sched", 48000, 480)],
    "C04": [("sched", 44000, 480)],
    "C05": [("asan", 16000, 300), ("plain", 60000, 240)],
    "C06": [("plain", 100000, 420)],
    "C07": [("plain", 140000, 420)],
    "C08": [("plain", 140000, 420)],
    "C09": [("plain", 140000, 420)],
    "C10": [("plain", 140000, 420)],
    "C11": [("plain", 140000, 420)],
    "C12": [("plain", 140000, 420)],
    "C13": [("plain", 140000, 420)],
    "C14": [("plain", 200000, 420)],
    "C15": [("plain", 140000, 420)],
    "C16": [("plain", 60000, 420)],
    "C17": [("asan", 3200, 300), ("plain", 16000, 240)],
    "C18": [("asan", 6000, 240), ("plain", 140000, 240)],
    "C21": [("asan", 4000, 150), ("plain", 60000, 240)],
    "C22": [("asan", 8000, 240), ("plain", 60000, 240)],
    "C23": [("plain", 180000, 300)],
    "C20": [("asan", 6000, 240), ("plain", 60000, 240)],
}
CAP_QUICK = 150.0      # safety cap per variant, seconds (a slow machine explores less, it never fails)
REAL = {
    "C01": "tracing.hpp, tracing.cc, qp.cc (traced scopes)", "C02": "tracing.hpp, tracing.cc",
    "C03": "tracing.hpp, tracing.cc, process exit and static destruction of the C/C++ runtime",
    "C04": "nonlinear.cc, qp.cc, residual.hpp/.cc, structs.cc, tracing.cc", "C16": "nonlinear.cc, qp.cc, residual.hpp, structs.cc, serialization.cc",
    "C17": "nonlinear.cc, qp.cc, residual.hpp, structs.cc, serialization.cc", "C14": "qp.cc, qp.hpp, structs.cc",
    "C18": "residual.hpp, residual.cc", "C21": "structs.cc, nonlinear.cc, qp.cc, residual.hpp", "C23": "qp.cc, qp.hpp, structs.cc",
}
REAL_DEFAULT = "nonlinear.cc, nonlinear.hpp, qp.cc, qp.hpp, residual.hpp, residual.cc, structs.cc, Eigen, libstdc++, libm"
STUB = {
    "sched": "thread scheduler (one runnable thread at a time, chosen by the seed), pthread mutexes/rwlocks/condition "
             "variables/once, C++ static guards, clocks, getpid/gettid, allocator (real, wrapped: faults and ordering)",
    "plain": "residuals, retractions and exit callbacks (seeded problems with injected responses), allocator (real, "
             "wrapped: faults, poison, leak accounting), clocks, disk (for C16/C17)",
    "asan": "residuals, retractions and exit callbacks (seeded problems with injected responses), allocator "
            "(AddressSanitizer's, wrapped: faults and leak accounting), clocks, disk (for C16/C17)",
}


def log(*a):
    print(*a, flush=True)


def sha(*parts):
    h = hashlib.sha256()
    for p in parts:
        h.update(p if isinstance(p, bytes) else p.encode())
        h.update(b"\0")
    return h.hexdigest()[:24]


def read(path):
    with open(path, "rb") as f:
        return f.read()


class BuildError(Exception):
    pass


_headers_cache = {}


def headers_digest(dirs):
    key = tuple(dirs)
    if key not in _headers_cache:
        parts = []
        for d in dirs:
            for root, _, files in sorted(os.walk(d)):
                for f in sorted(files):
                    if not f.endswith((".cc", ".cpp", ".o")):
                        parts += [os.path.relpath(os.path.join(root, f), d), read(os.path.join(root, f))]
        _headers_cache[key] = sha(*parts)
    return _headers_cache[key]


def compile_one(src, flags, digest):
    os.makedirs(os.path.join(BUILD, "obj"), exist_ok=True)
    obj = os.path.join(BUILD, "obj", sha(" ".join(flags), digest, src, read(src)) + ".o")
    if not os.path.exists(obj):
        tmp = "%s.%d.tmp" % (obj, os.getpid())
        r = subprocess.run(["g++"] + flags + ["-c", src, "-o", tmp], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        if r.returncode != 0:
            raise BuildError("compiling %s failed:\n%s" % (src, r.stdout[-4000:]))
        os.replace(tmp, obj)
    return obj


def privatise(objs):
    """Merges the uninstrumented objects and makes their inline functions local, so that the code under test is
    never linked to an uninstrumented copy of a template (nor the simulator to an instrumented one)."""
    out = os.path.join(BUILD, "obj", sha("privatise-1", *objs) + ".o")
    if not os.path.exists(out):
        tmp = "%s.%d.tmp" % (out, os.getpid())
        weak = tmp + ".weak"
        try:
            subprocess.run(["ld", "-r", "--force-group-allocation", "-o", tmp] + objs, check=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
            nm = subprocess.run(["nm", tmp], check=True, stdout=subprocess.PIPE, text=True).stdout.splitlines()
            with open(weak, "w") as f:
                f.write("\n".join(l.split()[-1] for l in nm if len(l.split()) == 3 and l.split()[1] == "W") + "\n")
            subprocess.run(["objcopy", "--localize-symbols=" + weak, tmp], check=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
            os.replace(tmp, out)
        except subprocess.CalledProcessError as e:
            raise BuildError("%s failed:\n%s" % (e.cmd[0], (e.stdout or b"")[-2000:]))
        finally:
            for f in (tmp, weak):
                if os.path.exists(f):
                    os.remove(f)
    return out


def build(variants):
    """Builds the given variants from /repo's working tree; returns {variant: executable}."""
    os.makedirs(os.path.join(BUILD, "bin"), exist_ok=True)
    libsrc = sorted(os.path.join(REPO, "source", f) for f in os.listdir(os.path.join(REPO, "source")) if f.endswith((".cc", ".cpp")))
    libdig = headers_digest([os.path.join(REPO, "include"), os.path.join(REPO, "source")])
    simdig = headers_digest([os.path.join(REPO, "include"), os.path.join(REPO, "source"), os.path.join(VERIF, "sim")])
    out = {}
    with cf.ThreadPoolExecutor(JOBS) as ex:
        futs = {}
        first = ["qp.cc", "nls_props.cc", "nls_oracles.cc", "qp_world.cc", "nonlinear.cc", "nls.cc"]
        for v in variants:
            spec = VARIANTS[v]
            todo = [(s, spec["flags"] + spec["lib"], libdig) for s in libsrc]
            todo += [(os.path.join(VERIF, "sim", n + ".cc"), spec["flags"] + x, simdig) for n, x in spec["sim"].items()]
            todo.sort(key=lambda t: (first.index(os.path.basename(t[0])) if os.path.basename(t[0]) in first else 99))
            futs[v] = []
            for t in todo:
                futs[v].append(ex.submit(compile_one, *t))
                d, n = os.path.split(t[0])
                futs[v][-1].sim_name = n[:-3] if d.endswith("sim") else None
        for v in variants:
            spec = VARIANTS[v]
            objs = sorted(f.result() for f in futs[v])
            if spec.get("private"):
                names = {f.result() for f in futs[v] if f.sim_name in spec["private"]}
                objs = [o for o in objs if o not in names] + [privatise(sorted(names))]
            cmd = spec["link"] + objs + ["-Wl,--wrap=" + w for w in spec["wrap"]] + spec.get("tail", [])
            exe = os.path.join(BUILD, "bin", v + "-" + sha(" ".join(cmd)))
            if not os.path.exists(exe):
                tmp = "%s.%d.tmp" % (exe, os.getpid())
                r = subprocess.run(["g++", "-o", tmp] + cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
                if r.returncode != 0:
                    raise BuildError("linking %s failed:\n%s" % (v, r.stdout[-4000:]))
                os.replace(tmp, exe)
            out[v] = exe
    prune()
    return out


def prune():
    for d, keep in (("obj", 260), ("bin", 12)):
        d = os.path.join(BUILD, d)
        fs = sorted((os.path.join(d, f) for f in os.listdir(d)), key=os.path.getmtime, reverse=True)
        for f in fs[keep:]:
            os.remove(f)


# ---------------------------------------------------------------- running one plan
def run_plan(exe, text, timeout=400):
    fd, path = tempfile.mkstemp(prefix="plan", dir=BUILD)
    try:
        with os.fdopen(fd, "w") as f:
            f.write(text)
        r = subprocess.run([exe, "run", path], stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, timeout=timeout)
    finally:
        os.remove(path)
    res = {"status": 3, "cls": "", "msg": "no result", "loghash": "", "counters": {}}
    for line in r.stdout.decode("utf-8", "replace").splitlines():
        k, _, v = line.partition("=")
        if k.startswith("counter "):
            res["counters"][k[8:]] = int(v)
        elif k == "status":
            res["status"] = int(v)
        else:
            res[k] = v
    return res


def gen_plan(exe, prop, seed, tier):
    return subprocess.run([exe, "gen", prop, str(seed), tier], stdout=subprocess.PIPE, check=True).stdout.decode()


# ---------------------------------------------------------------- minimisation
class Minimiser:
    def __init__(self, exe, cls, budget):
        self.exe, self.cls, self.deadline, self.tries = exe, cls, time.time() + budget, 0

    def fails(self, lines):
        if time.time() > self.deadline:
            return None
        self.tries += 1
        r = run_plan(self.exe, "\n".join(lines) + "\n")
        return r if r["status"] == 2 and r["cls"] == self.cls else None

    def ddmin(self, head, items):
        n = 2
        while len(items) >= 1 and time.time() < self.deadline:
            size = max(1, len(items) // n)
            for i in range(0, len(items), size):
                cand = items[:i] + items[i + size:]
                if self.fails(head + cand):
                    items, n = cand, max(2, n - 1)
                    break
            else:
                if size == 1:
                    break
                n = min(len(items), n * 2)
        return items

    def minimise(self, text):
        lines = text.strip().split("\n")
        first = run_plan(self.exe, text)
        switches = first.get("switches", "")
        if any(l.startswith("sched ") for l in lines):
            # fewer workload lines under the seeded schedule first, then freeze the schedule and shrink it
            lines = [lines[0]] + self.ddmin([lines[0]], lines[1:])
            r = self.fails(lines)
            if r:
                switches = r.get("switches", "")
            s = [l for l in lines if l.startswith("sched ")]
            if switches and s:
                kv = [t for t in s[0].split()[1:] if t.split("=")[0] in ("tick", "ticklo", "tickhi", "tickseed")]
                body = [l for l in lines[1:] if not l.startswith("sched ")]
                head = [lines[0], " ".join(["sched", "mode=explicit"] + kv)]
                sw = ["sw at=%s to=%s" % tuple(p.split(":")) for p in switches.split(",") if ":" in p]
                if self.fails(head + body + sw):
                    sw = self.ddmin(head + body, sw)
                    body = self.ddmin(head, body + sw)
                    plain = [lines[0], "sched mode=explicit"]
                    if self.fails(plain + body):
                        head = plain
                    lines = head + body
        else:
            lines = [lines[0]] + self.ddmin([lines[0]], lines[1:])
        return self.shrink(lines)

    def shrink(self, lines):
        lines = list(lines)
        for i in range(1, len(lines)):
            toks = lines[i].split()
            if toks[0] not in ("F", "A", "D", "S", "O", "sw"):
                continue
            for t in list(toks[1:]):
                key = t.split("=")[0]
                if key in ("len", "mag", "comp", "catch", "ud", "indent", "chunk", "eintr", "short", "thr"):
                    cand = [x for x in toks if x != t]
                    l2 = lines[:i] + [" ".join(cand)] + lines[i + 1:]
                    if self.fails(l2):
                        toks, lines = cand, l2
        return "\n".join(lines) + "\n"


# ---------------------------------------------------------------- one check
def batch(exe, prop, tier, base, total, cap, tmp):
    per = (total + JOBS - 1) // JOBS
    procs = []
    for w in range(JOBS):
        out = os.path.join(tmp, "w%d" % w)
        procs.append((out, subprocess.Popen([exe, "batch", prop, tier, str(base), str(w), str(JOBS), str(per), "%.1f" % cap, out],
                                            stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL)))
    agg = dict(runs=0, nontrivial=0, sim_ns=0, twice=0, logs=0, cpu=0.0, capped=0, harness=[], counters={}, states=set(),
               cases=set(), violations=[], samples=[])
    for out, p in procs:
        p.wait()
        if not os.path.exists(out):
            agg["harness"].append("a simulator worker ended with status %s and wrote no result" % p.returncode)
            continue
        with open(out, errors="replace") as f:
            for line in f:
                line = line.rstrip("\n")
                if "\t" in line:
                    k = line.split("\t")
                    if k[0] == "counter":
                        c = agg["counters"].setdefault(k[1], [0, 0])
                        c[0] += int(k[2])
                        c[1] += int(k[3])
                    elif k[0] == "state":
                        agg["states"].add(k[1])
                    elif k[0] == "case":
                        agg["cases"].add(k[1])
                    elif k[0] == "violation":
                        agg["violations"].append((int(k[1]), k[2], k[3] if len(k) > 3 else ""))
                    elif k[0] == "sample" and len(agg["samples"]) < 4:
                        agg["samples"].append(k[1].replace("\x1f", "\n"))
                else:
                    k, _, v = line.partition("=")
                    if k in ("runs", "nontrivial", "sim_ns", "twice", "logs", "capped"):
                        agg[k] += int(v)
                    elif k == "wall":
                        agg["cpu"] += float(v)
                    elif k == "harness":
                        agg["harness"].append(v)
    return agg


def check(prop):
    t0 = time.time()
    tier = os.environ.get("VERIF_TIER", "quick")
    if tier not in ("quick", "thorough"):
        tier = "quick"
    try:
        seed = int(os.environ.get("VERIF_SEED", "1"))
    except ValueError:
        seed = 1
    seed &= 0x7fffffff
    os.makedirs(EVID, exist_ok=True)
    parts = PROPS[prop]
    exes = build([v for v, _, _ in parts])
    build_s = time.time() - t0
    log("%s: built %s in %.1f s" % (prop, "+".join(sorted(exes)), build_s))
    results, harness, reported = [], [], None
    tmp = tempfile.mkdtemp(prefix="batch", dir=BUILD)
    try:
        for idx, (variant, quick_runs, thorough_s) in enumerate(parts):
            b0 = time.time()
            base = seed + 1000003 * idx
            if tier == "quick":
                agg = batch(exes[variant], prop, tier, base, quick_runs, CAP_QUICK, tmp)
            else:
                agg = batch(exes[variant], prop, tier, base, 10 ** 8,
                            float(os.environ.get("SIM_SECONDS", thorough_s)), tmp)
            agg["wall"] = time.time() - b0
            for f in os.listdir(tmp):
                os.remove(os.path.join(tmp, f))
            results.append((variant, agg))
            log("%s: %s: %d runs (%d distinct non-trivial cases, %d coverage states) in %.1f s" % (
                prop, variant, agg["runs"], len(agg["cases"]), len(agg["states"]), agg["wall"]))
            harness += ["%s: %s" % (variant, h) for h in agg["harness"]]
            for vseed, cls, msg in sorted(agg["violations"]):
                reported = confirm(prop, tier, variant, exes[variant], vseed, cls, harness, t0)
                if reported:
                    break
            if reported:
                break
    finally:
        shutil.rmtree(tmp, ignore_errors=True)
    write_evidence(prop, tier, seed, results, build_s, time.time() - t0, reported, harness)
    if reported:
        path, res = reported
        log("%s: %s: %s" % (prop, res["cls"], res["msg"]))
        log("VIOLATION property=%s replay=%s" % (prop, path))
        return 1
    if harness:
        for h in harness[:5]:
            log("%s: the check could not decide: %s" % (prop, h))
        return 2
    return 0


def confirm(prop, tier, variant, exe, vseed, cls, harness, t0):
    """A violation counts only if fresh processes reproduce it exactly; then it is minimised and written out."""
    text = gen_plan(exe, prop, vseed, tier)
    a = run_plan(exe, text)
    b = run_plan(exe, text)
    if a["status"] != 2 or b["status"] != 2 or a["cls"] != b["cls"] or a["loghash"] != b["loghash"]:
        harness.append("seed %d reported %s but did not reproduce exactly (%s/%s, %s/%s)" % (
            vseed, cls, a["cls"] or a["status"], b["cls"] or b["status"], a["loghash"], b["loghash"]))
        return None
    budget = 90.0 if tier == "quick" else 180.0
    if a["cls"] == "hang":
        budget = 0.0
    budget = min(budget, max(0.0, 700.0 - (time.time() - t0)))
    m = Minimiser(exe, a["cls"], budget)
    small = m.minimise(text) if budget > 0 else text
    c = run_plan(exe, small)
    if c["status"] != 2 or c["cls"] != a["cls"]:
        small, c = text, a
    d = run_plan(exe, small)
    if d["status"] != 2 or d["loghash"] != c["loghash"] or d["cls"] != c["cls"]:
        small, c = text, a
    rdir = os.path.join(EVID, "replays")
    os.makedirs(rdir, exist_ok=True)
    path = os.path.join(rdir, "%s-%d.plan" % (prop, vseed))
    with open(path, "w") as f:
        f.write("# property %s, found with seed %d (tier %s), minimised in %d executions\n" % (prop, vseed, tier, m.tries))
        f.write("# variant=%s\n# cls=%s\n# loghash=%s\n# %s\n" % (variant, c["cls"], c["loghash"], c["msg"]))
        f.write("# replay: python3 %s/check.py replay %s\n" % (VERIF, path))
        f.write(small)
        f.write("# --- unminimised plan of seed %d\n" % vseed)
        for l in text.strip().split("\n"):
            f.write("# " + l + "\n")
    return path, c


def replay(path):
    text = read(path).decode()
    meta = dict(re.findall(r"^# (variant|cls|loghash)=(.*)$", text, re.M))
    prop = re.search(r"^plan prop=(\w+)", text, re.M).group(1)
    exe = build([meta["variant"]])[meta["variant"]]
    rs = [run_plan(exe, text) for _ in range(2)]
    for r in rs:
        log("status=%s cls=%s loghash=%s\n%s" % (r["status"], r["cls"], r["loghash"], r["msg"]))
    if all(r["status"] == 2 and r["cls"] == meta["cls"] for r in rs) and rs[0]["loghash"] == rs[1]["loghash"]:
        same = rs[0]["loghash"] == meta["loghash"]
        log("reproduced%s" % (" exactly" if same else " (same violation; the code around it has changed)"))
        log("VIOLATION property=%s replay=%s" % (prop, path))
        return 1
    log("not reproduced on this tree")
    return 0


def write_evidence(prop, tier, seed, results, build_s, wall, reported, harness):
    faults, other, perv = {}, {}, {}
    runs = sum(a["runs"] for _, a in results)
    cases, states = set(), set()
    for v, a in results:
        cases |= {v + c for c in a["cases"]}
        states |= a["states"]
        for k, (n, r) in a["counters"].items():
            d = faults if k.startswith("fault.") else other
            k = k[6:] if k.startswith("fault.") else k
            e = d.setdefault(k, {"injected" if d is faults else "count": 0, "runs_with": 0})
            e["injected" if d is faults else "count"] += n
            e["runs_with"] += r
        perv[v] = dict(runs=a["runs"], wall_s=round(a["wall"], 2), cpu_s=round(a["cpu"], 2), time_capped_workers=a["capped"],
                       runs_per_hour=int(a["runs"] / max(a["wall"], 1e-3) * 3600),
                       simulated_seconds=a["sim_ns"] / 1e9, reexecuted_for_determinism=a["twice"],
                       logged_events=a["logs"], stubbed=STUB[v])
    search = sum(a["wall"] for _, a in results)
    ev = dict(
        property=prop, tier=tier, seed=seed, level="exploration",
        coverage=dict(
            evaluations=runs,
            distinct_nontrivial=len(cases),
            rule="one evaluation = one simulated run in a pristine process, a pure function of its plan, which is generated from "
                 "(property, seed); seeds are VERIF_SEED*100000007+k. A case is non-trivial when the property's oracle "
                 "judged at least one thing in it, and distinct by the hash of its plan together with the event log of the run.",
            samples=[s for _, a in results for s in a["samples"]][:6],
            seeds_per_hour=int(runs / max(search, 1e-3) * 3600),
            runs_per_hour=int(runs / max(search, 1e-3) * 3600),
            simulated_seconds=sum(a["sim_ns"] for _, a in results) / 1e9,
            distinct_states=len(states),
            distinct_states_measure="hashes of abstract states recorded by the world (for the sched variant: the sequence of "
                                    "context switches of the run together with the outcome; otherwise the sequence of step results, "
                                    "stop reasons and faults)",
            faults_injected=faults,
            counters=other,
            per_variant=perv,
            real_code=REAL.get(prop, REAL_DEFAULT),
            build_s=round(build_s, 1),
        ),
        assumptions=["see DESIGN.md for the environment model of each property",
                     "a quiet run means no violation among the runs counted here, not a proof"],
        wall_s=round(wall, 2), violations=1 if reported else 0)
    if harness:
        ev["coverage"]["harness_errors"] = harness[:10]
    tmp = os.path.join(EVID, prop + ".json.tmp")
    with open(tmp, "w") as f:
        json.dump(ev, f, indent=1)
        f.write("\n")
    os.replace(tmp, os.path.join(EVID, prop + ".json"))


def main(argv):
    try:
        if argv[:1] == ["setup"]:
            t = time.time()
            build(list(VARIANTS))
            log("built %s in %.1f s" % (", ".join(VARIANTS), time.time() - t))
            return 0
        if argv[:1] == ["check"] and len(argv) == 2 and argv[1] in PROPS:
            return check(argv[1])
        if argv[:1] == ["replay"] and len(argv) == 2:
            return replay(argv[1])
        if argv[:1] in (["run"], ["gen"]) and len(argv) >= 3:
            v = PROPS[argv[1]][0][0]
            exe = build([v])[v]
            text = gen_plan(exe, argv[1], int(argv[2]), argv[3] if len(argv) > 3 else "quick")
            if argv[0] == "gen":
                print(text, end="")
            else:
                print(json.dumps(run_plan(exe, text), indent=1))
            return 0
    except BuildError as e:
        log(str(e))
        return 2
    log(__doc__)
    return 2


if __name__ == "__main__":
    sys.exit(main(sys.argv[1:]))
