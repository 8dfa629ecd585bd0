#!/usr/bin/env python3
"""Driver of the deterministic simulation checks.

  check.py run PROPERTY [--seconds N]   build from /repo's working tree, search, report (the command in MANIFEST.json)
  check.py replay FILE                  rebuild and re-execute one replay file; exit 1 when its violation happens again
  check.py build                        build only
Environment: VERIF_SEED (default 1), VERIF_TIER (quick|thorough), LNLIB_REPO (default /repo).
"""
import sys, os, re, json, time, glob, hashlib, subprocess, shutil, signal, struct, tempfile
from concurrent.futures import ThreadPoolExecutor

HERE = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("LNLIB_REPO", "/repo")
CACHE = os.path.join(HERE, ".cache")
JOBS = max(2, min(8, os.cpu_count() or 2))
BASE = ["-std=c++17", "-O1", "-g1", "-DNDEBUG", "-fno-pie", "-fno-omit-frame-pointer", "-w", "-isystem", "/usr/include/eigen3"]
WRAP = """__cxa_thread_atexit __cxa_atexit memcpy memmove memset __cxa_guard_acquire __cxa_guard_release __cxa_guard_abort
__cxa_allocate_exception pthread_mutex_lock pthread_mutex_trylock pthread_mutex_timedlock pthread_mutex_unlock pthread_rwlock_wrlock
pthread_rwlock_rdlock pthread_rwlock_unlock pthread_cond_wait pthread_cond_timedwait pthread_cond_clockwait pthread_cond_signal
pthread_cond_broadcast pthread_once pthread_create pthread_join pthread_detach clock_gettime gettimeofday time clock nanosleep
clock_nanosleep usleep sched_yield rand srand random srandom rand_r drand48 lrand48 getentropy getrandom getenv
_ZNSt13random_device7_M_initERKNSt7__cxx1112basic_stringIcSt11char_traitsIcESaIcEEE _ZNSt13random_device7_M_finiEv
_ZNSt13random_device9_M_getvalEv""".split()
CAPI_PROPS = {"D04", "D05"}


def log(*a):
    print(*a, flush=True)


def digest(paths, extra=""):
    h = hashlib.sha256(extra.encode())
    for p in paths:
        h.update(os.path.basename(p).encode() + b"\0")
        with open(p, "rb") as f:
            h.update(f.read())
    return h.hexdigest()[:32]


HARD = ["-D_GLIBCXX_ASSERTIONS", "-fsanitize=bounds-strict", "-fsanitize-undefined-trap-on-error", "-fstack-protector-strong"]
HARD_PROPS = {"D13"}  # containers and arrays check their own bounds: an index inside the allocation but outside the object is seen, too


def build(prop=None):
    """Returns (path of the simulator, notes). Everything is compiled from the working tree; objects are cached by content."""
    lib = os.path.join(REPO, "src", "LNLib")
    capi = os.path.join(REPO, "dotnet", "CAPI")
    libsrc = sorted(glob.glob(lib + "/**/*.cpp", recursive=True))
    hdr = sorted(sum((glob.glob(lib + "/**/*" + e, recursive=True) for e in (".h", ".hpp", ".inl")), []))
    chdr = sorted(sum((glob.glob(capi + "/**/*" + e, recursive=True) for e in (".h", ".hpp", ".inl")), []))
    csrc = [f for f in sorted(glob.glob(capi + "/src/**/*.cpp", recursive=True)) if "dllmain" not in os.path.basename(f).lower()]
    sim = os.path.join(HERE, "sim")
    simh = sorted(glob.glob(sim + "/*.h"))
    hdirs = sorted({os.path.dirname(h) for h in hdr} | {lib + "/include"})
    cdirs = sorted({os.path.dirname(h) for h in chdr} | {capi + "/include"})
    inc = sum((["-I", d] for d in hdirs), []) + ["-DLNLIB_HOME"]
    cinc = sum((["-I", d] for d in cdirs), [])
    cpp = os.path.join(CACHE, "obj")
    os.makedirs(cpp, exist_ok=True)
    hh, ch, sh = digest(hdr), digest(chdr), digest(simh)
    san = ["-fsanitize=thread"] + (HARD if prop in HARD_PROPS else [])
    todo = []  # (kind, source, flags, salt)
    for f in libsrc:
        todo.append(("lib", f, BASE + san + inc, hh))
    for f in csrc:
        todo.append(("capi", f, BASE + san + inc + cinc + ["-fpermissive", "-include", "cstring", "-include", "algorithm"], hh + ch))
    for f in sorted(glob.glob(sim + "/ops_*.cpp")) + [sim + "/gen.cpp"]:
        k = "opcapi" if f.endswith("ops_capi.cpp") else "op"
        todo.append((k, f, BASE + san + inc + cinc + ["-fpermissive"], hh + ch + sh))
    for f in (sim + "/rt.cpp", sim + "/main.cpp"):
        todo.append(("rt", f, BASE + inc, hh + sh))

    def one(t):
        kind, src, flags, salt = t
        key = digest([src], " ".join(flags) + salt + os.path.relpath(src, REPO if src.startswith(REPO) else HERE))
        obj = os.path.join(cpp, key + ".o")
        if not os.path.exists(obj):
            tmp = obj + ".%d.tmp" % os.getpid()
            r = subprocess.run(["g++"] + flags + ["-c", src, "-o", tmp], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
            if r.returncode:
                return kind, src, None, r.stdout[-2500:]
            os.replace(tmp, obj)
        return kind, src, obj, ""

    todo.sort(key=lambda t: -os.path.getsize(t[1]))
    with ThreadPoolExecutor(JOBS) as ex:
        res = list(ex.map(one, todo))
    notes = []
    bad = [r for r in res if r[2] is None]
    if any(r[0] in ("lib", "rt") for r in bad):
        for r in bad:
            log("compile error in", r[1], "\n" + r[3])
        return None, ["the library does not compile"]
    drop = set()
    if any(r[0] in ("capi", "opcapi") for r in bad):
        drop = {"capi", "opcapi"}
        notes.append("the C API does not compile here and was left out: " + "; ".join(os.path.basename(r[1]) for r in bad))
    for r in bad:
        if r[0] == "op":
            notes.append("operations left out (do not compile against this tree): " + os.path.basename(r[1]))
            log("note: left out", r[1], "\n" + r[3])
    if any(os.path.basename(r[1]) == "gen.cpp" for r in bad):
        return None, notes
    objs = [r[2] for r in res if r[2] and r[0] not in drop]
    key = hashlib.sha256(" ".join(objs + WRAP).encode()).hexdigest()[:32]
    exe = os.path.join(CACHE, "sim-" + key)
    if not os.path.exists(exe):
        tmp = exe + ".%d.tmp" % os.getpid()
        r = subprocess.run(["g++", "-static", "-no-pie"] + ["-Wl,--wrap=" + w for w in WRAP] + ["-o", tmp] + objs + ["-lpthread"], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        if r.returncode:
            log("link error\n" + r.stdout[-3000:])
            return None, notes + ["link error"]
        os.replace(tmp, exe)
        for old in sorted(glob.glob(CACHE + "/sim-*"), key=os.path.getmtime)[:-6]:
            os.unlink(old)
        for old in sorted(glob.glob(cpp + "/*.o"), key=os.path.getmtime)[:-1200]:
            os.unlink(old)
    return exe, notes


def parse_replay(path):
    meta, plan = {}, []
    for line in open(path):
        if line.startswith("# ") and "=" in line:
            k, v = line[2:].rstrip("\n").split("=", 1)
            meta[k] = v
        else:
            plan.append(line.rstrip("\n"))
    return meta, plan


def addr(exe, pcs):
    pcs = [p for p in pcs if p and p != "0x0"]
    if not pcs:
        return ""
    try:
        r = subprocess.run(["addr2line", "-Cfse", exe] + pcs, capture_output=True, text=True, timeout=60).stdout.split("\n")
        return " <- ".join("%s (%s)" % (r[i][:120], r[i + 1]) for i in range(0, len(r) - 1, 2))
    except Exception:
        return ""


def replay(exe, path):
    """(happens again, exactly) in a fresh process."""
    try:
        r = subprocess.run([exe, "replay", path], capture_output=True, text=True, timeout=400)
    except subprocess.TimeoutExpired:
        return False, False, "replay timed out"
    m = re.search(r"exact=(\d)", r.stdout)
    return r.returncode == 1, bool(m and m.group(1) == "1"), r.stdout.strip()


def findings():
    """known-findings.txt: 'KNOWN-FINDING: property=<id> probe=<replay file> <what fails>' and 'fixed: ...' lines."""
    out = []
    for line in open(os.path.join(HERE, "known-findings.txt")):
        m = re.match(r"KNOWN-FINDING: property=(\S+) probe=(\S+) (.*)", line)
        if m:
            out.append(m.groups())
    return out


def run(prop, seconds, tier, seed):
    t0 = time.time()
    exe, notes = build(prop)
    if not exe:
        log("cannot build the simulator from this tree")
        return 2
    tb = time.time() - t0
    prof = subprocess.run([exe, "profiles"], capture_output=True, text=True).stdout
    m = re.search(r"^%s kind \d+ ops (\d+)" % prop, prof, re.M)
    nops = int(m.group(1)) if m else 0
    out = tempfile.mkdtemp(prefix="lnlib-sim-")
    vio, known, rejected = [], [], []
    try:
        for (p, probe, what) in findings():
            if p == prop:
                again, exact, txt = replay(exe, os.path.join(HERE, probe))
                if again:
                    log("KNOWN-FINDING: property=%s %s" % (p, what))
                    known.append(what)
                else:
                    log("note: the known finding '%s' no longer happens on this tree" % what)
        procs = []
        if nops:
            for w in range(JOBS):
                procs.append(subprocess.Popen([exe, "worker", prop, str(seed), str(w), str(JOBS), str(seconds), out, "1000000000", "8", "2"], stdout=subprocess.DEVNULL, stderr=open(out + "/err-%d" % w, "w"), start_new_session=True))
        else:
            notes.append("no operation of this property is available on this tree")
        seen = set()
        deadline = time.time() + seconds + 300
        while True:
            alive = [p for p in procs if p.poll() is None]
            for f in sorted(glob.glob(out + "/*.replay")):
                if f in seen or vio:
                    continue
                time.sleep(0.3)
                seen.add(f)
                meta, plan = parse_replay(f)
                again, exact, txt = replay(exe, f)
                if again and exact:
                    again, exact, txt = replay(exe, f)
                if not (again and exact):
                    rejected.append(meta.get("kind", "?") + "/" + meta.get("op", "?"))
                    continue
                rd = os.path.join(HERE, "replays")
                os.makedirs(rd, exist_ok=True)
                dst = os.path.join(rd, "%s-seed%d-%s" % (prop, seed, os.path.basename(f)))
                shutil.copy(f, dst)
                where = addr(exe, [meta.get("pc"), meta.get("pc2")])
                with open(dst, "a") as h:
                    h.write("# where=%s\n" % where)
                vio.append((dst, meta, plan, where))
            if vio or not alive or time.time() > deadline:
                break
            time.sleep(0.25)
        if vio:
            time.sleep(0.5)
        for p in procs:
            if p.poll() is None:
                try:
                    os.kill(p.pid, signal.SIGTERM)
                except ProcessLookupError:
                    pass
        for p in procs:
            try:
                p.wait(timeout=20)
            except subprocess.TimeoutExpired:
                os.killpg(p.pid, signal.SIGKILL)
                p.wait()
        write_evidence(prop, tier, seed, out, t0, tb, nops, notes, vio, known, rejected, seconds)
    finally:
        shutil.rmtree(out, ignore_errors=True)
    for n in notes:
        log("note:", n)
    if vio:
        dst, meta, plan, where = vio[0]
        log("property %s broken: %s in operation %s (caller %s, step %s): %s" % (prop, meta.get("kind"), meta.get("op"), meta.get("task"), meta.get("step"), meta.get("detail")))
        if where:
            log("at", where)
        for l in plan:
            if l.startswith(("seed", "step", "switch", "sched", "env")):
                log("  " + l)
        log("VIOLATION property=%s replay=%s" % (prop, dst))
        return 1
    log("%s: no violation" % prop)
    return 0


RULES = {
    "D01": "two to four simulated threads", "D02": "two to four simulated threads", "D03": "two to four simulated threads", "D04": "two to four simulated threads of C callers",
}


def write_evidence(prop, tier, seed, out, t0, tb, nops, notes, vio, known, rejected, seconds):
    tot, grp, samples = {}, {"policy": {}, "env": {}, "op": {}, "badop": {}}, []
    for f in sorted(glob.glob(out + "/stats-*.txt")):
        for line in open(f):
            w = line.split()
            if not w:
                continue
            if w[0] == "sample":
                samples.append(line[7:].strip()[:600])
            elif w[0] in grp and len(w) == 3:
                grp[w[0]][w[1]] = grp[w[0]].get(w[1], 0) + int(w[2])
            elif len(w) == 2:
                try:
                    tot[w[0]] = tot.get(w[0], 0) + float(w[1])
                except ValueError:
                    pass

    def union(n):
        s = set()
        for f in glob.glob(out + "/%s-*.bin" % n):
            b = open(f, "rb").read()
            s.update(struct.unpack("<%dQ" % (len(b) // 8), b))
        return len(s)

    I = lambda k: int(tot.get(k, 0))
    runs = I("runs")
    wall = max(1e-9, tot.get("wall", 0) / JOBS)
    fk = {"fired1": "allocation fails once (n-th)", "fired2": "allocation fails from the n-th on", "fired3": "allocations fail at random", "fired4": "large allocations fail", "fired5": "two allocations fail"}
    faults = {v: I(k) for k, v in fk.items() if I(k)}
    for k, v in (("entropyFails", "entropy source unavailable"), ("stalls", "caller suspended in the middle of a call"), ("tornCopies", "block copy interrupted in the middle"), ("threads", "threads started by the library")):
        if I(k):
            faults[v] = I(k)
    for k, n in grp["env"].items():
        if k.startswith(("clock", "entropy", "envvars")):
            faults["environment: " + k] = n
    ev = {
        "property": prop, "tier": tier, "seed": seed, "level": "exploration",
        "coverage": {
            "evaluations": runs,
            "distinct_nontrivial": union("trace"),
            "rule": "One evaluation is one simulated run in its own process: a plan drawn from the seed (operations and their inputs, callers, scheduling policy, allocation/entropy faults, memory contents, clock) executed once under the simulator. Distinct: the hash of everything observable in the run (results, steps, fault firings, context switches) differs from every other run; every run executes real library code, so none is trivial.",
            "samples": samples[:6] or ["(no run)"],
            "simulated_runs_per_hour": int(runs / wall * 3600),
            "seeds_per_hour": int(runs / wall * 3600),
            "simulated_time": {"library_steps": I("steps"), "meaning": "instrumented memory accesses executed under the simulated scheduler; the library has no timers, so logical steps are its time"},
            "operations_in_scope": nops, "operations_executed": len(grp["op"]), "library_calls_judged": I("ops"),
            "distinct_operation_instances": union("inst"), "distinct_interleavings": union("sched"), "interleaving_measure": "hash of the sequence of context switches (from, step, to) of runs with more than one caller",
            "context_switches": I("switches"), "shared_or_static_accesses_seen": I("sharedAccess") + I("globalAccess"), "lock_operations": I("locks"), "atomic_operations": I("atomics"), "static_initialisation_guards": I("guards"),
            "allocations_seen": I("allocs"), "fault_kinds_injected": faults, "runs_with_planned_faults": I("faultRuns"), "runs_where_a_fault_fired": I("firedRuns"), "faults_withheld_inside_third_party_code": I("foreignSkipped"),
            "scheduling_policies": grp["policy"], "memory_and_environment_variants": grp["env"],
            "reference_executions": I("refs"), "plans_skipped_too_heavy_or_unusable": I("skipped"), "references_unusable": I("badrefs"), "runs_not_reproducible": I("nondet"), "runs_broken": I("broken"), "candidate_violations_not_reproduced_in_a_fresh_process": rejected,
            "real_code": "all of LNLib" + (" and its C API" if not any("C API does not compile" in n for n in notes) else "") + ", libstdc++ and Eigen, compiled from the working tree",
            "stubbed": "thread scheduling, locks, thread creation, heap, clocks, sleep, environment variables, entropy (random_device, getrandom, rand)",
            "build_s": round(tb, 1), "search_s": seconds, "known_findings": known, "notes": notes,
        },
        "assumptions": ["threads interleave at instrumented memory accesses, block copies, allocations, locks and atomics; unsynchronised conflicting accesses are reported as races rather than simulated under weak memory", "the build uses -O1 with compiler instrumentation; results are compared between executions of the same build"],
        "wall_s": round(time.time() - t0, 1), "violations": len(vio),
    }
    os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
    with open(os.path.join(HERE, "evidence", prop + ".json"), "w") as f:
        json.dump(ev, f, indent=1)


def main():
    a = sys.argv[1:]
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    tier = os.environ.get("VERIF_TIER", "quick")
    if tier not in ("quick", "thorough"):
        tier = "quick"
    if a and a[0] == "build":
        exe, notes = build()
        log(exe or "build failed", *notes)
        return 0 if exe else 2
    if len(a) > 1 and a[0] == "replay":
        meta, _ = parse_replay(a[1])
        exe, notes = build(meta.get("property"))
        if not exe:
            return 2
        again, exact, txt = replay(exe, a[1])
        log(txt)
        if again:
            log("VIOLATION property=%s replay=%s" % (meta.get("property"), a[1]))
        return 1 if again else 0
    if len(a) > 1 and a[0] == "run":
        if "--tier" in a:
            tier = a[a.index("--tier") + 1]
        seconds = int(a[a.index("--seconds") + 1]) if "--seconds" in a else (90 if tier == "quick" else 600)
        return run(a[1], seconds, tier, seed)
    log(__doc__)
    return 2


if __name__ == "__main__":
    sys.exit(main())
