#!/usr/bin/env python3
"""Decides one property by seeded search over simulated executions.

  check.py <property>            quick or thorough by VERIF_TIER
  check.py <property> --replay F replays a recorded violation (exit 1 when it
                                 is reproduced exactly, 0 when it holds now)
  check.py --setup               checks the toolchain, builds the runtime
  check.py <property> --build    only builds; prints the executable

Everything is compiled from /repo's working tree (override with IMMER_REPO for
experiments); results are cached under build/ by the content of all inputs.
"""
import fcntl, fnmatch, glob, hashlib, json, os, re, shutil, subprocess, sys, time
from concurrent.futures import ThreadPoolExecutor

HERE = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("IMMER_REPO", "/repo")
BUILD = os.environ.get("VERIF_BUILD", os.path.join(HERE, "build"))
JOBS = int(os.environ.get("VERIF_JOBS", "8"))
sys.path.insert(0, HERE)
from props import PROPS  # noqa: E402

WRAP = """malloc calloc realloc free aligned_alloc posix_memalign _Znwm _Znam
_ZnwmSt11align_val_t _ZnwmRKSt9nothrow_t _ZdlPv _ZdaPv _ZdlPvm
_ZdlPvSt11align_val_t _ZdlPvmSt11align_val_t sched_yield nanosleep
clock_nanosleep usleep pthread_mutex_lock pthread_mutex_trylock
pthread_mutex_unlock __emutls_get_address __cxa_thread_atexit
__cxa_guard_acquire __cxa_guard_release __cxa_guard_abort __assert_fail abort
exit""".split()
CXX = "clang++"
SUTFLAGS = ["-std=c++20", "-O1", "-g", "-fsanitize=thread", "-femulated-tls",
            "-fno-pie", "-mllvm", "-tsan-instrument-func-entry-exit=0",
            "-DIMMER_HAS_LIBGC=1", "-w"]
RTFLAGS = ["-std=c++20", "-g", "-O2", "-fPIC", "-fvisibility=hidden",
           "-shared", "-Wl,-Bsymbolic",
           "-fno-builtin-malloc"]


class Broken(Exception):
    pass


def digest(paths, *extra):
    h = hashlib.sha256()
    for p in sorted(paths):
        h.update(p.encode() + b"\0")
        with open(p, "rb") as f:
            h.update(f.read())
        h.update(b"\0")
    for e in extra:
        h.update(repr(e).encode())
    return h.hexdigest()[:20]


def run(cmd, **kw):
    r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT,
                       text=True, **kw)
    if r.returncode:
        raise Broken("command failed: %s\n%s" % (" ".join(cmd[:6]) + " ...",
                                                r.stdout[-6000:]))
    return r.stdout


def files(d, *pats):
    out = []
    for root, _, fs in os.walk(d):
        for f in fs:
            if any(fnmatch.fnmatch(f, p) for p in pats):
                out.append(os.path.join(root, f))
    return out


def write_done(tmp, final):
    os.replace(tmp, final)


def build(prop):
    """Compiles the translation units of a property; returns the executable."""
    os.makedirs(BUILD, exist_ok=True)
    lock = open(os.path.join(BUILD, ".lock"), "w")
    fcntl.flock(lock, fcntl.LOCK_EX)
    try:
        return build_locked(prop)
    finally:
        lock.close()


def build_locked(prop):
    rt = glob.glob(HERE + "/rt/*")
    hdr = files(REPO + "/immer", "*.hpp", "*.h") + glob.glob(HERE + "/sc/*.hpp") + [HERE + "/rt/sim.h"]
    rtkey = digest(rt, RTFLAGS)
    hkey = digest(hdr, SUTFLAGS, REPO)
    tus = []
    for pat in PROPS[prop]["tus"]:
        m = sorted(glob.glob("%s/sc/%s.cpp" % (HERE, pat)))
        if not m:
            raise Broken("no translation unit matches " + pat)
        tus += [t for t in m if t not in tus]
    exedir = os.path.join(BUILD, digest(tus, rtkey, hkey, WRAP))
    exe = os.path.join(exedir, "sim")
    if os.path.exists(exe):
        os.utime(exedir)
        return exe
    objdir = os.path.join(BUILD, "obj-" + hkey)
    os.makedirs(objdir, exist_ok=True)
    rtdir = os.path.join(BUILD, "rt-" + rtkey)
    os.makedirs(rtdir, exist_ok=True)
    prune({exedir, objdir, rtdir})
    lib = os.path.join(rtdir, "libsimrt.so")
    main_o = os.path.join(rtdir, "main.o")

    def rtjob():
        if not os.path.exists(main_o):
            run([CXX] + RTFLAGS + [HERE + "/rt/runtime.cpp",
                                   HERE + "/rt/driver.cpp",
                                   HERE + "/rt/hostmem.cpp", "-o", lib + ".tmp"])
            os.replace(lib + ".tmp", lib)
            run([CXX, "-std=c++20", "-fno-pie", "-g", "-c",
                 HERE + "/rt/main.cpp", "-o", main_o + ".tmp"])
            os.replace(main_o + ".tmp", main_o)

    def cc(src):
        o = os.path.join(objdir, digest([src]) + "-" +
                         os.path.basename(src)[:-4] + ".o")
        if not os.path.exists(o):
            run([CXX] + SUTFLAGS + ["-I" + REPO, "-c", src, "-o", o + ".tmp"])
            os.replace(o + ".tmp", o)
        return o

    # the biggest first
    order = sorted(tus, key=lambda t: ("seq_flex" not in t, "hash_" not in t, t))
    with ThreadPoolExecutor(JOBS) as ex:
        r = ex.submit(rtjob)
        objs = list(ex.map(cc, order))
        r.result()
    os.makedirs(exedir, exist_ok=True)
    shutil.copy(lib, exedir + "/libsimrt.so")
    run([CXX, "-no-pie", "-g"] + objs + [main_o, "-o", exe + ".tmp"] +
        ["-Wl,--wrap=" + w for w in WRAP] +
        ["-L" + exedir, "-lsimrt", "-Wl,-rpath,$ORIGIN"])
    os.replace(exe + ".tmp", exe)
    return exe


def prune(keep):
    """Bounds the cache: the entries not used for the longest time go."""
    es = []
    for e in os.listdir(BUILD):
        p = os.path.join(BUILD, e)
        if os.path.isdir(p) and p not in keep:
            es.append((os.path.getmtime(p), p))
    es.sort(reverse=True)
    for _, p in es[60:]:
        shutil.rmtree(p, ignore_errors=True)


def scn_arg(prop):
    return ",".join(PROPS[prop]["scn"])


def symbolize(exe, pcs):
    if not pcs or not shutil.which("llvm-symbolizer"):
        return []
    pcs = [p for p in pcs if not p.startswith("0x7")]
    r = subprocess.run(["llvm-symbolizer", "-e", exe, "-f=short", "-C", "-p",
                        "-s", "-i"] + pcs, stdout=subprocess.PIPE, text=True)
    out = []
    for l in r.stdout.splitlines():
        if l.strip():
            l = re.sub(r"<[^<>]*>", "", re.sub(r"<[^<>]*>", "", l))
            out.append("    " + l.strip()[:160])
    return out[:24]


def do_replay(prop, path):
    exe = build(prop)
    r = subprocess.run([exe, "replay", path], stdout=subprocess.PIPE, text=True)
    lines = r.stdout.splitlines()
    print("\n".join(l for l in lines if not l.startswith("PC ")))
    print("\n".join(symbolize(exe, [l[3:] for l in lines if l.startswith("PC ")])))
    return r.returncode


def determinism(exe, prop, seed, n):
    """The same runs in two processes, and from recorded decisions."""
    outs = []
    with ThreadPoolExecutor(4) as ex:
        jobs = []
        for rep in range(2):
            for part in range(2):
                jobs.append(ex.submit(
                    subprocess.run,
                    [exe, "hashes", "--seed", str(seed), "--first",
                     str(part * n // 2), "--runs", str(n // 2), "--scn",
                     scn_arg(prop)],
                    stdout=subprocess.PIPE, text=True))
        outs = [j.result().stdout for j in jobs]
    a, b = outs[0] + outs[1], outs[2] + outs[3]
    return a == b and "REPLAY-DIFFERS" not in a, len(a.splitlines())


def read_known(prop):
    """known_findings.txt: lines `open: property=<id> scn|op|class|text :: what`
    and `fixed: property=<id> <commit> <what>` (which suppress nothing)."""
    out = []
    p = os.path.join(HERE, "known_findings.txt")
    if os.path.exists(p):
        for l in open(p):
            m = re.match(r"open: property=(\S+) (.*?) :: (.*)$", l.rstrip("\n"))
            if m and m.group(1) == prop:
                out.append((m.group(2), m.group(3)))
    return out


def main():
    args = sys.argv[1:]
    if args == ["--setup"]:
        for p in PROPS:
            for pat in PROPS[p]["tus"]:
                if not glob.glob("%s/sc/%s.cpp" % (HERE, pat)):
                    raise Broken("no translation unit matches " + pat)
        print(run([CXX, "--version"]).splitlines()[0])
        return 0
    prop = args[0]
    if "--replay" in args:
        return do_replay(prop, args[args.index("--replay") + 1])
    if "--build" in args:
        print(build(prop))
        return 0
    t0 = time.time()
    cfg = PROPS[prop]
    tier = os.environ.get("VERIF_TIER", "quick")
    if tier not in ("quick", "thorough"):
        tier = "quick"
    seed = int(os.environ.get("VERIF_SEED", "1") or "1")
    print("property=%s tier=%s seed=%d" % (prop, tier, seed), flush=True)
    exe = build(prop)
    tb = time.time() - t0
    print("built in %.1f s" % tb, flush=True)
    outdir = os.path.join(HERE, "replays", prop)
    shutil.rmtree(outdir, ignore_errors=True)
    os.makedirs(outdir)
    knowns = read_known(prop)
    cmd = [exe, "run", "--prop", prop, "--seed", str(seed), "--runs",
           str(int(os.environ.get("VERIF_RUNS", cfg[tier]))), "--jobs",
           str(JOBS), "--out", outdir, "--exe", exe, "--scn", scn_arg(prop),
           "--max-wall", str(cfg.get("wall", {"quick": 240,
                                              "thorough": 3 * 3600}[tier])),
           "--max-viol", "3"]
    if knowns:
        kf = os.path.join(outdir, "known.list")
        with open(kf, "w") as f:
            for pat, _ in knowns:
                f.write(pat + "\n")
        cmd += ["--known", kf]
    r = subprocess.run(cmd, stdout=subprocess.PIPE, text=True)
    sys.stdout.write(r.stdout)
    sys.stdout.flush()
    found = re.findall(r"^FOUND (\S+) ", r.stdout, re.M)
    confirmed = []
    problems = []
    for path in found:
        try:
            rr = subprocess.run([exe, "replay", path], stdout=subprocess.PIPE,
                                text=True, timeout=120)
        except subprocess.TimeoutExpired:
            problems.append("the replay of %s does not end" % path)
            continue
        if rr.returncode == 1:
            confirmed.append((path, rr.stdout))
        else:
            problems.append("%s does not replay: %s" % (path, rr.stdout[:300]))
    ok, ndet = (True, 0)
    if not found:
        ok, ndet = determinism(exe, prop, seed + 1000003, 400)
        if not ok:
            problems.append("two executions of the same seeds differ")
    if r.returncode not in (0, 1) or (r.returncode == 1 and not found):
        problems.append("the search did not complete (exit %d)" % r.returncode)
    for i in sorted(set(re.findall(r"^KNOWN (\d+) ", r.stdout, re.M)), key=int):
        print("KNOWN-FINDING: property=%s %s" % (prop, knowns[int(i)][1]))
    try:
        s = json.load(open(outdir + "/summary.json"))
    except Exception as e:
        s = None
        problems.append("no summary: %s" % e)
    if s:
        evidence(prop, tier, seed, cfg, s, ndet, ok, len(confirmed), tb,
                 time.time() - t0)
    for path, out in confirmed:
        lines = out.splitlines()
        print("\n".join(l for l in lines if not l.startswith("PC ")))
        print("\n".join(symbolize(exe, [l[3:] for l in lines
                                        if l.startswith("PC ")])))
        print("VIOLATION property=%s replay=%s" % (prop, path), flush=True)
    if confirmed:
        return 1
    if problems:
        for p in problems:
            print("ERROR", p)
        return 2
    print("held: property=%s runs=%d distinct=%d wall=%.0f s" %
          (prop, s["runs"], s["distinct_executions"], time.time() - t0))
    return 0


def evidence(prop, tier, seed, cfg, s, ndet, det_ok, nviol, tb, wall):
    per_hour = int(s["runs"] / max(s["wall"], 1e-9) * 3600)
    cov = {
        "evaluations": s["runs"],
        "distinct_nontrivial": s["nontrivial"],
        "rule":
            "One evaluation is one simulated execution of one generated program "
            "(operations per thread) under one seeded schedule, fault and "
            "collection sequence; seed i of the batch is derived from "
            "VERIF_SEED and i. It counts as distinct and non-trivial when the "
            "hash over all its events and observations was not seen before in "
            "the scenario, it executed at least 3 operations and allocated, "
            "and, with several threads, at least one thread was preempted "
            "inside an operation.",
        "samples": s["samples"],
        "simulated_runs_per_hour": per_hour,
        "seeds_per_hour": per_hour,
        "simulated_time_steps": s["steps"],
        "operations": s["ops"],
        "distinct_executions": s["distinct_executions"],
        "multi_threaded_runs": s["mt_runs"],
        "distinct_interleavings": s["distinct_interleavings"],
        "distinct_interleavings_measure":
            "hash of the sequence of (thread, kind of step) over the run",
        "context_switches": s["switches"],
        "preemptions_inside_operations": s["preemptions"],
        "faults_fired": {
            "allocation_failed": s["alloc_failures"],
            "user_code_threw": s["throws"],
            "thread_stalled": s["stalls"],
            "garbage_collection_at_allocation": s["gc_collections"],
        },
        "runs_with_faults": s["faulted_runs"],
        "allocations": s["allocs"],
        "recorded_decisions": s["decisions"],
        "scenarios": s["scenarios"],
        "probes": s["probes"],
        "known_findings_met": s["known"],
        "determinism_check": {"runs_executed_twice_and_replayed": ndet,
                              "identical": det_ok},
        "real_code": "all of immer (compiled from the working tree), the "
                     "C++ standard library's headers, std::atomic",
        "stubs": "memory behind malloc/new (an arena with red zones, address "
                 "reuse or quarantine), libgc (a simulated conservative "
                 "mark and sweep collector), threads (fibers), thread_local "
                 "storage and its destructors, sched_yield/nanosleep, "
                 "user elements, hashes and functions (harness types)",
        "build_s": round(tb, 1),
    }
    ev = {
        "property": prop, "tier": tier, "seed": seed, "level": "exploration",
        "coverage": cov,
        "assumptions": [
            "sequentially consistent interleavings of the instrumented "
            "accesses; weaker orders show as data races by happens-before "
            "over the memory orders the code asks for",
            "seeded sampling: a clean batch is evidence, not proof",
        ],
        "wall_s": round(wall, 2), "violations": nviol,
    }
    os.makedirs(HERE + "/evidence", exist_ok=True)
    with open("%s/evidence/%s.json" % (HERE, prop), "w") as f:
        json.dump(ev, f, indent=1)


if __name__ == "__main__":
    try:
        sys.exit(main())
    except Broken as e:
        print("ERROR", e)
        sys.exit(2)
