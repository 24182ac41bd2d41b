#!/usr/bin/env python3
"""Decides one property by seeded simulation of the code in /repo.

  check.py ID                 quick tier (VERIF_TIER=thorough or --tier for the deep one)
  check.py --replay FILE      run a recorded violation again (exit 1 if it fails again)
"""
import json, os, re, subprocess, sys, tempfile, time, shutil
import build as B
V = B.V
NW = int(os.environ.get("SIM_WORKERS", "8"))
# id -> (world, quick seconds, thorough seconds)
PROPS = {}
for i in ("C08", "C09", "C10", "C11", "C12"):
    PROPS[i] = ("ic", 30, 600)
for i in ("C01", "C02", "C03", "C04", "C05", "C06", "C07"):
    PROPS[i] = ("net", 35, 600)
for i in ("C13", "C14", "C15", "C16"):
    PROPS[i] = ("redir", 25, 600)
PROPS["C23"] = ("stack", 40, 600)
PROPS["C17"] = ("diag", 20, 600)
PROPS["C18"] = ("queue", 20, 600)
PROPS["C19"] = PROPS["C20"] = ("json", 30, 600)
PROPS["C26"] = ("multi", 30, 600)
PROPS["C27"] = ("par", 20, 600)
PROPS["C24"] = ("trait", 20, 600)
PROPS["C25"] = ("cells", 20, 600)
PROPS["C21"] = PROPS["C22"] = ("node", 30, 600)
REAL = {
    "ic": ("bcl/IntrusiveConnection.h and bcl/Socket.h (whole), libstdc++ std::thread, mutex, condition_variable, "
           "function, string (templates compiled into the instrumented unit)",
           "pthread primitives, clock, heap (deterministic arena), the socket under the connection (mock which "
           "delivers and records), server and handler bodies (seeded script)"),
    "net": ("lib/Socket/CSocket/CSocket.cpp, bcl/CSocket.h and bcl/Socket.h (whole), libstdc++ std::thread, list, string, "
            "function (templates compiled into the instrumented unit)",
            "kernel sockets, name resolution, descriptors, signals, clock, pthread primitives, heap (deterministic arena), "
            "clients and listeners (seeded scripts)"),
    "redir": ("bcl/RedirectIO.h and bcl/Diagnostic.h (whole), the C library's stdio (statically linked: buffering, seeking, "
              "fopen/fclose)",
              "system calls (open, close, read, pread, write, lseek, dup2, fstat, ...), file system and descriptor table, heap "
              "(deterministic arena), the writers of redirected descriptors (seeded actors, child processes with inherited "
              "descriptors)"),
    "diag": ("bcl/Diagnostic.h (whole)", "heap (deterministic arena; new and new[] fail on demand), formatting functions (fail on "
             "demand, otherwise the real ones with bounds checks)"),
    "queue": ("bcl/transparent_queue.h (whole), libstdc++ std::queue and std::deque",
              "heap (deterministic arena; new fails on demand)"),
    "json": ("bcl/Json.h, bcl/cell.h, bcl/Diagnostic.h and what they include (whole), instantiated for 51 types, libstdc++ "
             "containers and strings", "heap (deterministic arena; new and new[] fail on demand), formatting functions (fail on "
             "demand), the channel on which documents are damaged"),
    "trait": ("bcl/trait.h, bcl/tagged.h, bcl/cell.h and what they include (whole), instantiated for a descriptor with nested "
              "groups, libstdc++ std::map and std::vector", "heap (deterministic arena; new fails on demand), descriptions "
              "(objects which report their construction and destruction)"),
    "cells": ("bcl/marray.h, bcl/marray_f.h, bcl/ValuePtrWrapper.h, bcl/cell.h, bcl/tagged.h, bcl/convertible_pair.h and "
              "swapMemory() of bcl/utility.h, libstdc++ std::vector and std::tuple", "heap (deterministic arena; new and new[] "
              "fail on demand), elements (objects whose constructors and assignments fail on demand)"),
    "node": ("lib/Socket/NodeJSSocket/NodeJSSocket.cpp and bcl/Socket.h (whole), the installed Node.js with its V8 heap, garbage "
             "collector and EventEmitter",
             "sockets (EventEmitter objects which deliver seeded events), server and listeners (seeded scripts), heap of the addon "
             "(deterministic arena), the moments of garbage collections (requested in front of API calls, in listeners and between "
             "events)"),
    "multi": ("lib/Socket/CSocket/CSocket.cpp, bcl/CSocket.h and bcl/Socket.h (whole), libstdc++ std::thread, list, string, "
              "function (templates compiled into the instrumented unit)",
              "kernel sockets, name resolution, descriptors, signals, clock, pthread primitives, heap (deterministic arena), "
              "clients and listeners (seeded scripts)"),
    "par": ("bcl/Json.h, bcl/Diagnostic.h, bcl/transparent_queue.h, bcl/trait.h, bcl/marray.h, bcl/marray_f.h, bcl/cell.h, "
            "bcl/utility.h and what they include (whole), libstdc++ containers and std::thread",
            "pthread primitives, thread scheduling down to single memory accesses, heap (deterministic arena; new fails on demand)"),
    "stack": ("lib/Socket/CSocket/CSocket.cpp, bcl/IntrusiveConnection.h, bcl/CSocket.h and bcl/Socket.h (whole), libstdc++ "
              "std::thread, mutex, condition_variable, list, string, function",
              "kernel sockets, name resolution, descriptors, signals, clock, pthread primitives, heap (deterministic arena), "
              "clients and request handlers (seeded scripts)"),
}
QUICK_RUNS = 10**9


def die(msg, code=2):
    print("ERROR: " + msg)
    sys.exit(code)


def known(prop):
    out = []
    p = os.path.join(V, "KNOWN_FINDINGS")
    if os.path.exists(p):
        for l in open(p):
            m = re.match(r"known: property=(\S+) kind=(\S+) match=/(.*)/ (.*)", l.strip())
            if m and m.group(1) == prop:
                out.append((m.group(2), m.group(3), m.group(4)))
    return out


def outcome(exe, world, focus, f, log=None):
    cmd = [exe, "--world", world, "--mode", "replay", "--file", f, "--focus", focus]
    if log:
        cmd += ["--log", log]
    r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace")
    return r.returncode, r.stdout


def header(f):
    h = {}
    for l in open(f, errors="replace"):
        w = l.rstrip("\n").split(" ", 1)
        if w[0] == "choices":
            break
        if len(w) == 2:
            h[w[0]] = w[1]
    return h


def replay(f):
    h = header(f)
    try:
        exe = B.build(PROPS[h["property"]][0])
    except B.BuildError as e:
        die("build failed\n" + str(e))
    log = tempfile.mktemp()
    rc, out = outcome(exe, PROPS[h["property"]][0], h["property"], f, log)
    if os.path.exists(log):
        sys.stdout.write(open(log, errors="replace").read())
        os.unlink(log)
    print(out)
    if rc == 1:
        print("VIOLATION property=%s replay=%s" % (h["property"], f))
    return rc


def main():
    a = sys.argv[1:]
    if a and a[0] == "--replay":
        sys.exit(replay(a[1]))
    prop = a[0]
    tier = os.environ.get("VERIF_TIER", "quick")
    if "--tier" in a:
        tier = a[a.index("--tier") + 1]
    seed = int(os.environ.get("VERIF_SEED", "1"))
    world, tq, tt = PROPS[prop]
    t0 = time.time()
    limit = float(os.environ.get("SIM_TIME", tq if tier == "quick" else tt))
    try:
        exe = B.build(world)
    except B.BuildError as e:
        die("the simulated world does not build from the current tree\n" + str(e))
    tb = time.time() - t0
    tmp = tempfile.mkdtemp(prefix="simcheck")
    try:
        rc = decide(prop, world, tier, seed, exe, limit, tb, tmp, t0)
    finally:
        shutil.rmtree(tmp, ignore_errors=True)
    sys.exit(rc)


def decide(prop, world, tier, seed, exe, limit, tb, tmp, t0):
    ps = []
    for w in range(NW):
        cmd = [exe, "--world", world, "--mode", "explore", "--seed", str(seed), "--from", str(w), "--to", str(10**9),
               "--stride", str(NW), "--time", "%.1f" % limit, "--focus", prop, "--twice", "397",
               "--cpu", str(w % (os.cpu_count() or 1)), "--out", "%s/o%d" % (tmp, w), "--hashes", "%s/h%d" % (tmp, w),
               "--save", "%s/v%d" % (tmp, w)]
        ps.append(subprocess.Popen(cmd, stdout=subprocess.DEVNULL, stderr=open("%s/e%d" % (tmp, w), "w")))
    # one worker with a violation is enough
    live = set(range(NW))
    hit = False
    while live:
        time.sleep(0.05)
        for w in list(live):
            if ps[w].poll() is not None:
                live.discard(w)
                if ps[w].returncode == 1 and not hit:
                    hit = True
                    stop = time.time() + 1.0
        if hit and live and time.time() > stop:
            for w in live:
                ps[w].kill()
            for w in live:
                ps[w].wait()
            live = set()
    res = []
    errs = []
    for w in range(NW):
        try:
            res.append((w, json.load(open("%s/o%d" % (tmp, w)))))
        except (OSError, ValueError):
            if not hit:
                errs.append("worker %d ended with %s: %s" % (w, ps[w].returncode, open("%s/e%d" % (tmp, w)).read()[-500:]))
    tot = {k: sum(r[k] for _, r in res) for k in
           ("runs", "sim_ns", "steps", "switches", "choices", "violations", "foreign", "errors", "twice", "nondeterministic")}
    cnt, kinds = {}, {}
    for _, r in res:
        for k, v in r["counters"].items():
            cnt[k] = max(cnt.get(k, 0), v) if k.startswith("probe.max") else cnt.get(k, 0) + v
        for k, v in r["kinds"].items():
            kinds[k] = kinds.get(k, 0) + v
    errs += [r["error"] for _, r in res if r["error"]]
    hs, sc, nontriv = set(), set(), set()
    for w in range(NW):
        try:
            for l in open("%s/h%d" % (tmp, w)):
                f = l.split()
                if len(f) < 6:
                    continue
                hs.add(f[1])
                sc.add(f[2])
                if int(f[5]) > 0:
                    nontriv.add(f[1])
        except OSError:
            pass
    vs = sorted((r["violation"]["index"], w, r["violation"]) for w, r in res if "violation" in r)
    wall = time.time() - t0
    real, stub = REAL[world]
    code = 0
    found = None
    if vs:
        rdir = os.path.join(V, "replays")
        os.makedirs(rdir, exist_ok=True)
        for idx, w, v in vs:
            src, dst = "%s/v%d" % (tmp, w), "%s/s%d" % (tmp, w)
            r = subprocess.run([exe, "--world", world, "--mode", "shrink", "--file", src, "--out", dst, "--time",
                                "20" if tier == "quick" else "120", "--focus", prop],
                               stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, errors="replace")
            if r.returncode != 0:
                errs.append("run %d (%s) did not reproduce: %s" % (idx, v["kind"], r.stderr[-300:]))
                continue
            log = "%s/log" % tmp
            c1, o1 = outcome(exe, world, prop, dst, log)
            c2, o2 = outcome(exe, world, prop, dst)
            if c1 != 1 or c2 != 1 or o1 != o2:
                errs.append("minimised run %d (%s) does not replay in a fresh process" % (idx, v["kind"]))
                continue
            found = (idx, v, dst, log, json.loads(r.stdout), o1)
            break
        if found:
            idx, v, dst, log, shr, o1 = found
            path = os.path.join(rdir, "%s-seed%d.replay" % (prop, seed))
            body = open(dst).read()
            head = "property %s\nworld %s\nbase-seed %d\nindex %d\n" % (prop, world, seed, idx)
            text = open(log, errors="replace").read()
            msg = o1.strip().splitlines()
            with open(path, "w") as f:
                f.write(head + body + "\n--- event log of this run ---\n" + text + "\n" + o1)
            print("violation of %s: %s (run %d of base seed %d, choices %d -> %d)" %
                  (prop, v["kind"], idx, seed, shr["before"], shr["after"]))
            print(v["msg"])
            print("\n".join(msg[-3:]))
            print("VIOLATION property=%s replay=%s" % (prop, path))
            code = 1
    faults = {k[6:]: v for k, v in sorted(cnt.items()) if k.startswith("fault.")}
    ev = dict(property=prop, tier=tier, seed=seed, level="exploration", wall_s=round(time.time() - t0, 2),
              violations=tot["violations"],
              coverage=dict(
                  evaluations=tot["runs"], distinct_nontrivial=len(nontriv),
                  rule="One evaluation is one simulated run of world '%s', generated from (VERIF_SEED, run index). Two runs "
                       "are distinct when the hash of their complete event log and schedule differs; a run is non-trivial "
                       "when at least one recorded decision deviates from the default (a preemption, delay, fault or "
                       "non-minimal input)." % world,
                  samples=sample(exe, world, seed),
                  runs_per_hour=int(tot["runs"] / max(wall - tb, .1) * 3600), seeds_per_hour=int(tot["runs"] / max(wall - tb, .1) * 3600),
                  distinct_executions=len(hs), distinct_interleavings=len(sc),
                  interleaving_measure="hash of the sequence of context switches of a run",
                  simulated_seconds=round(tot["sim_ns"] / 1e9, 1), scheduling_steps=tot["steps"],
                  context_switches=tot["switches"], decisions=tot["choices"],
                  faults_injected=faults, probes={k: v for k, v in sorted(cnt.items()) if not k.startswith("fault.")},
                  real_code=real, stubbed=stub,
                  repeated_for_determinism=tot["twice"], repeats_that_differed=tot["nondeterministic"],
                  runs_that_violated_other_properties=tot["foreign"], violation_kinds_seen=kinds,
                  workers=NW, build_s=round(tb, 1)),
              assumptions=["sequentially consistent memory apart from data races, which are reported as such",
                           "the simulated environment is faithful to POSIX for the calls the code makes",
                           "sampling: runs not generated are not covered"])
    os.makedirs(os.path.join(V, "evidence"), exist_ok=True)
    with open(os.path.join(V, "evidence", prop + ".json"), "w") as f:
        json.dump(ev, f, indent=1)
    for k, m, t in known(prop):
        print("KNOWN-FINDING: property=%s %s" % (prop, t))
    if code == 0 and (errs or tot["errors"] or tot["nondeterministic"]):
        die("; ".join(errs)[:2000])
    if code == 0 and tot["runs"] < 50:
        die("only %d runs" % tot["runs"])
    print("%s %s: %d runs, %d distinct, %.0f s simulated, %d violations, %.1f s" %
          (prop, tier, tot["runs"], len(hs), tot["sim_ns"] / 1e9, tot["violations"], time.time() - t0))
    return code


def sample(exe, world, seed):
    r = subprocess.run([exe, "--world", world, "--mode", "one", "--seed", str(seed), "--index", "3"],
                       stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, text=True, errors="replace")
    return [dict(index=3, event_log=r.stdout.splitlines()[:60])]


if __name__ == "__main__":
    main()
