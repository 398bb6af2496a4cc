#!/usr/bin/env python3
"""Builds the simulator from /repo's working tree and decides one property by seeded simulation.

  check.py setup                      build the simulator (both build variants)
  check.py <property> [--tier quick|thorough] [--seed N] [--runs N] [--seconds S]
  check.py replay FILE [--files]      replay a recorded run and print its history

Exit status of a check: 0 held on everything explored, 1 violated (with a VIOLATION line), 2 no answer.
"""
import fcntl, glob, hashlib, json, os, re, shutil, struct, subprocess, sys, time
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("G3_REPO", "/repo")
SIM = os.path.join(VERIF, "sim")
BUILD = os.environ.get("G3_BUILD", os.path.join(VERIF, "build"))
OUT = os.environ.get("G3_OUT", VERIF)            # evidence/ and replay/ go below this
CXX = "clang++"
JOBS = os.cpu_count() or 4

PLAIN = ["engine", "verify", "gen", "history", "driver", "oracle"]
F_PLAIN = "-std=c++17 -O2 -g1 -Wall -fno-stack-protector -c".split()
F_INSTR = "-std=c++17 -O1 -g1 -fsanitize=thread -D_GLIBCXX_EXTERN_TEMPLATE=0 -c".split()
ENC = {"encoding": "utf-8", "errors": "backslashreplace"}
VARIANT = {0: [], 1: ["-DNDEBUG", "-DG3_DYNAMIC_LOGGING", "-DG3_DYNAMIC_MAX_MESSAGE_SIZE"]}


def digest(files, extra=""):
    h = hashlib.sha256(extra.encode())
    for f in sorted(files):
        h.update(f.encode() + b"\0")
        with open(f, "rb") as fh:
            h.update(fh.read())
        h.update(b"\0")
    return h.hexdigest()[:20]


def repo_sources():
    return sorted(f for f in glob.glob(REPO + "/src/*.cpp") if "windows" not in os.path.basename(f))


def repo_files():
    out = []
    for root, _, names in os.walk(REPO + "/src"):
        out += [os.path.join(root, n) for n in names if re.search(r"\.(h|hpp|hh|ipp|inl|cpp|cc|tpp)$", n)]
    return sorted(out)


def run_compile(cmd, out):
    tmp = out + ".tmp%d" % os.getpid()
    p = subprocess.run(cmd + ["-o", tmp], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, encoding="utf-8", errors="backslashreplace")
    if p.returncode:
        raise RuntimeError("build failed: %s\n%s" % (" ".join(cmd), p.stdout[-6000:]))
    os.replace(tmp, out)


def build():
    """Returns {variant: binary}."""
    os.makedirs(BUILD, exist_ok=True)
    with open(BUILD + "/lock", "w") as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        inc = BUILD + "/inc"
        os.makedirs(inc + "/g3log", exist_ok=True)
        defs = "#pragma once\n#define G3LOG_DEBUG DEBUG\n"
        p = inc + "/g3log/generated_definitions.hpp"
        if not os.path.exists(p) or open(p).read() != defs:
            open(p, "w").write(defs)
        heads = glob.glob(SIM + "/*.h")
        rfiles = repo_files()
        jobs, link = [], {0: [], 1: []}
        plain = []
        for n in PLAIN:
            src = "%s/%s.cpp" % (SIM, n)
            o = "%s/%s-%s.o" % (BUILD, n, digest([src] + heads, " ".join(F_PLAIN)))
            plain.append(o)
            if not os.path.exists(o):
                jobs.append(([CXX] + F_PLAIN + [src], o))
        for v in (0, 1):
            for src in [SIM + "/app.cpp"] + repo_sources():
                ours = src.startswith(SIM)
                fl = F_INSTR + VARIANT[v] + ["-I" + inc, "-I" + REPO + "/src"] + ([] if ours else ["-w"])
                o = "%s/v%d-%s-%s.o" % (BUILD, v, os.path.basename(src)[:-4], digest([src] + (heads if ours else []) + rfiles, " ".join(fl) + defs))
                link[v].append(o)
                if not os.path.exists(o):
                    jobs.append(([CXX] + fl + [src], o))
        # the longest compilations first
        jobs.sort(key=lambda j: -os.path.getsize(j[0][-1]))
        with ThreadPoolExecutor(JOBS) as ex:
            list(ex.map(lambda j: run_compile(*j), jobs))
        bins = {}
        for v in (0, 1):
            name = "%s/sim%d-%s" % (BUILD, v, hashlib.sha256(" ".join(link[v] + plain).encode()).hexdigest()[:20])
            bins[v] = name
            if not os.path.exists(name):
                run_compile([CXX] + link[v] + plain + ["-rdynamic", "-no-pie", "-ldl", "-lpthread"], name)
            else:
                os.utime(name)
        keep = set(plain + link[0] + link[1] + list(bins.values()))
        for f in glob.glob(BUILD + "/*.o") + glob.glob(BUILD + "/sim?-*"):      # old products
            if f not in keep and time.time() - os.path.getmtime(f) > 6 * 3600:
                os.unlink(f)
        return bins



# ---------------------------------------------------------------- one check
PROPS = ["C%02d" % i for i in range(1, 29)]
# runs per build variant: quick (always all of them unless the time cap is hit), and seconds for thorough
QUICK_RUNS, QUICK_CAP = 20000, 240
QUICK_OVERRIDE = {}
THOROUGH_SECONDS = 700

REAL = ["g3log.cpp, logcapture.cpp, logmessage.cpp, logworker.cpp, loglevels.cpp, filesink.cpp, crashhandler_unix.cpp, time.cpp and every header of /repo/src, compiled from the working tree with thread-sanitizer instrumentation",
        "libstdc++ containers, streams, std::thread, std::mutex, std::condition_variable, std::future and std::call_once as used by it (their templates instrumented too)"]
STUB = ["scheduler: one thread runs at a time, chosen by the seeded simulator at every synchronisation operation, blocking call, system call and sampled memory access",
        "pthread mutexes, condition variables, thread creation and joining, futex waits: modelled by the simulator",
        "clocks, sleeps and timed waits: virtual time", "write, open and close of files: real files in a scratch directory behind an interposed layer that injects faults",
        "signal delivery, raise, sigaction, exit and abort: modelled (handlers run for real; the end of the process is recorded)",
        "allocation: real, with a quarantine that detects use after free, and injected failures", "stack dumps (backtrace): a fixed stub", "sinks, hooks and handlers of the application: test code of the simulator"]


def known_findings(prop):
    """[(class, text)] listed for this property; fixed entries suppress nothing."""
    out = []
    for line in open(VERIF + "/known-findings.txt", **ENC):
        m = re.match(r"finding: property=(\S+) class=(\S+) (.*)", line)
        if m and m.group(1) == prop:
            out.append((m.group(2), m.group(3).strip()))
    return out


def merge(a, b):
    for k, x in b.items():
        if isinstance(x, dict):
            merge(a.setdefault(k, {}), x)
        elif isinstance(x, list):
            a[k] = [p + q for p, q in zip(a.get(k, [0] * len(x)), x)]
        elif isinstance(x, (bool, str)):
            a[k] = a.get(k) or x
        else:
            a[k] = max(a.get(k, 0), x) if k in ("seconds", "max_threads", "last") else a.get(k, 0) + x


def report_violation(prop, binary, variant, f, cls, text, tmp, limit=60):
    """Minimises, replays in a fresh process. Returns the replay path or None."""
    rdir = OUT + "/replay"
    os.makedirs(rdir, exist_ok=True)
    dest = "%s/%s-%s" % (rdir, prop, os.path.basename(f).split("-")[-1])

    def reproduces(path):
        p = subprocess.run([binary, "replay", path, "--quiet", "--variant", str(variant)], stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, encoding="utf-8", errors="backslashreplace", timeout=120)
        return p.returncode == 1 and ("class=%s " % cls) in p.stdout
    small = tmp + "/min-" + os.path.basename(f)
    try:
        subprocess.run([binary, "minimise", f, small, "--time", str(limit), "--variant", str(variant)], stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL, timeout=limit + 120)
        if os.path.exists(small) and reproduces(small) and reproduces(small):
            shutil.copy(small, dest)
            return dest
    except subprocess.TimeoutExpired:
        pass
    try:
        if reproduces(f) and reproduces(f):
            shutil.copy(f, dest)
            return dest
    except subprocess.TimeoutExpired:
        pass
    return None


def check(prop, tier, seed, runs=None, seconds=None):
    t0 = time.time()
    bins = build()
    tb = time.time() - t0
    known = known_findings(prop)
    if tier == "thorough":
        count, cap = runs or 100000000, seconds or THOROUGH_SECONDS
    else:
        count, cap = runs or QUICK_OVERRIDE.get(prop, QUICK_RUNS), seconds or QUICK_CAP
    tmp = "%s/run-%s-%d" % (BUILD, prop, os.getpid())
    os.makedirs(tmp, exist_ok=True)
    procs, stats, viols = [], {}, []
    W = JOBS
    try:
        ts = time.time()
        for v in (0, 1):
            for w in range(W):
                args = [bins[v], "run", "--prop", prop, "--seed", str(seed), "--count", str(count), "--worker", "%d/%d" % (w, W), "--variant", str(v),
                        "--time", str(cap), "--maxviol", "1", "--out", tmp, "--known", "|".join(k for k, _ in known)]
                log = open("%s/log-%d-%d" % (tmp, v, w), "w+", **ENC)
                procs.append((v, subprocess.Popen(args, stdout=log, stderr=log), log))
        hard = time.time() + cap + 150
        first = None
        while True:
            alive = [p for _, p, _ in procs if p.poll() is None]
            if not alive:
                break
            if first is None:
                for _, _, log in procs:
                    if "\nVIOL " in "\n" + open(log.name, **ENC).read():
                        first = time.time()
            # the workers that have found nothing get a little longer, then one violation is enough
            if time.time() > hard or (first and time.time() > first + 3):
                for p in alive:
                    p.terminate()
                for p in alive:
                    p.wait()
                break
            time.sleep(0.1)
        wall = time.time() - ts
        hashes = set()
        answered = 0
        for v, p, log in procs:
            log.seek(0)
            for line in log.read().split("\n"):
                m = re.match(r"VIOL (\S+) seed=(\d+) class=(.*?) :: (.*)", line)
                if m:
                    viols.append((v, m.group(1), int(m.group(2)), m.group(3), m.group(4)))
                elif line.startswith("STATS "):
                    merge(stats, json.loads(line[6:]))
                    answered += 1
            log.close()
        for f in glob.glob(tmp + "/hash-*.bin"):
            d = open(f, "rb").read()
            hashes.update((f[-7:-5], x) for x in struct.unpack("<%dQ" % (len(d) // 8), d))
        known_hits = stats.get("known", {})
        code, replay = 0, None
        if viols:
            code = 2
            viols.sort(key=lambda x: os.path.getsize(x[1]) if os.path.exists(x[1]) else 1 << 60)
            for v, f, sd, cls, text in viols[:4]:
                replay = report_violation(prop, bins[v], v, f, cls, text, tmp, 40 if tier == "quick" else 120)
                if replay:
                    print("violation (seed %d, build %d): %s: %s" % (sd, v, cls, text))
                    print("VIOLATION property=%s replay=%s" % (prop, replay))
                    code = 1
                    break
            if code == 2:
                print("no answer: a violation did not reproduce: %s" % (viols[0],))
        runs_done = stats.get("runs", 0)
        if code == 0:
            if answered < len(procs):
                print("no answer: %d of %d workers ended without a result" % (len(procs) - answered, len(procs)))
                for _, _, log in procs:
                    t = open(log.name, **ENC).read()
                    if "STATS" not in t:
                        print(t[-800:])
                        break
                code = 2
            elif not runs_done:
                print("no answer: no run was made")
                code = 2
            elif stats.get("inconclusive", 0) * 50 > runs_done:
                print("no answer: %d of %d runs were inconclusive (%s)" % (stats["inconclusive"], runs_done, stats.get("first_inconclusive")))
                code = 2
            elif stats.get("determinism_bad", 0) + stats.get("replay_bad", 0) > 0:
                print("warning: %d re-runs and %d replays differed from the first execution" % (stats["determinism_bad"], stats["replay_bad"]))
        for cls, text in known:
            print("KNOWN-FINDING: property=%s %s: %s (seen in %d of %d runs)" % (prop, cls, text, known_hits.get(cls, 0), runs_done))
        samples = []
        for v in (0, 1):
            p = subprocess.run([bins[v], "trace", "--prop", prop, "--seed", str(seed * 1000000 + 3 + v), "--variant", str(v)], stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, encoding="utf-8", errors="backslashreplace")
            lines = [l.rstrip()[:160] for l in p.stdout.split("\n")]
            if len(lines) > 130:
                lines = lines[:90] + ["... %d lines left out" % (len(lines) - 125)] + lines[-35:]
            samples.append({"seed": seed * 1000000 + 3 + v, "build": v, "execution": lines})
        faults = {k: {"injected": x[0], "runs_with_it": x[1]} for k, x in stats.get("faults", {}).items() if x[0]}
        ev = {
            "property": prop, "tier": tier, "seed": seed, "level": "exploration",
            "coverage": {
                "evaluations": runs_done, "distinct_nontrivial": len(hashes),
                "rule": "One evaluation is one simulated execution of a generated multi-threaded program against the real library, with its scheduling and faults decided by the seed; "
                        "non-trivial and distinct: it logged or submitted something, and its sequence of context switches (which thread ran, at which of its synchronisation points) and recorded events differs from that of every other run (64-bit hash per build variant).",
                "samples": samples,
                "runs_per_hour": int(runs_done * 3600 / max(wall, 1e-9)), "seeds_from": seed * 1000000, "seeds_used_up_to": stats.get("last", 0) + seed * 1000000 if stats.get("last", 0) < 1000000 else stats.get("last", 0),
                "virtual_seconds": stats.get("virtual_seconds", 0), "scheduling_points": stats.get("points", 0), "context_switches": stats.get("switches", 0), "preemptions": stats.get("preemptions", 0),
                "synchronisation_operations": stats.get("syncops", 0), "instrumented_memory_accesses": stats.get("accesses", 0), "reused_memory_blocks": stats.get("reused", 0), "recorded_events": stats.get("events", 0), "scheduling_decisions_recorded": stats.get("decisions", 0),
                "max_threads_in_a_run": stats.get("max_threads", 0), "pct_priority_runs": stats.get("pct_runs", 0), "runs_with_memory_level_preemption": stats.get("memory_preemption_runs", 0),
                "log_statements": stats.get("log_statements", 0), "messages_received": stats.get("receives", 0), "obligations_checked": stats.get("obligations", 0),
                "process_outcomes": stats.get("outcomes", {}), "faults": faults,
                "known_findings_hit": known_hits, "inconclusive_runs": stats.get("inconclusive", 0), "stopped_by_time_cap": bool(stats.get("capped", False)),
                "re_executions_compared": stats.get("determinism_checked", 0), "re_executions_that_differed": stats.get("determinism_bad", 0),
                "replays_compared": stats.get("replay_checked", 0), "replays_that_differed": stats.get("replay_bad", 0),
                "real_components": REAL, "simulated_or_stubbed": STUB,
            },
            "assumptions": ["executions are sequentially consistent interleavings; weak-memory reorderings are not simulated (unordered accesses are reported as races where the property demands their absence)",
                            "preemption happens at synchronisation operations, system calls, allocations, atomic and sampled plain memory accesses",
                            "search is random: absence of a violation is evidence for the explored executions only"],
            "wall_s": round(time.time() - t0, 2), "violations": 1 if code == 1 else 0,
        }
        os.makedirs(OUT + "/evidence", exist_ok=True)
        with open("%s/evidence/%s.json" % (OUT, prop), "w") as fh:
            json.dump(ev, fh, indent=1)
        print("%s %s: %d runs (%d distinct) in %.1f s after %.1f s of building, %d obligations, exit %d" % (prop, tier, runs_done, len(hashes), wall, tb, stats.get("obligations", 0), code))
        return code
    finally:
        for _, p, _ in procs:
            if p.poll() is None:
                p.kill()
        shutil.rmtree(tmp, ignore_errors=True)


def main():
    import argparse
    a = sys.argv[1:]
    if a == ["setup"]:
        print(json.dumps(build()))
        return 0
    if a[:1] == ["replay"] and len(a) >= 2:
        m = re.search(r"^variant (\d)", open(a[1], **ENC).read(), re.M)
        return subprocess.run([build()[int(m.group(1))], "replay"] + a[1:] + ["--variant", m.group(1)]).returncode
    ap = argparse.ArgumentParser()
    ap.add_argument("property", choices=PROPS)
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"), choices=["quick", "thorough"])
    ap.add_argument("--seed", type=int, default=int(os.environ.get("VERIF_SEED", "1") or 1))
    ap.add_argument("--runs", type=int)
    ap.add_argument("--seconds", type=float)
    o = ap.parse_args()
    return check(o.property, o.tier, o.seed, o.runs, o.seconds)


if __name__ == "__main__":
    for stream in (sys.stdout, sys.stderr):
        stream.reconfigure(**ENC)
    try:
        sys.exit(main())
    except Exception as e:
        print("no answer: %s" % e)
        sys.exit(2)
