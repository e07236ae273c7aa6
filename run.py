#!/usr/bin/env python3
"""Entry point of every check:

    python3 run.py C01            run the check of one property (VERIF_TIER=quick|thorough, VERIF_SEED=n)
    python3 run.py --setup        build the simulators
    python3 run.py --replay FILE  execute a replay file and print its trace
    python3 run.py --selftest     determinism self-test of all scenarios

exit 0: the property held on everything explored; exit 1: a line VIOLATION property=<id> replay=<path>
for each violation; any other exit: the check itself is broken (build failure, something that does not
reproduce).
"""
import json, os, re, subprocess, sys, time

VERIF = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.join(VERIF, "lib"))
import build  # noqa: E402
import props  # noqa: E402

JOBS = int(os.environ.get("VERIF_JOBS", "8"))


FLAVOUR = {"tsim": "asan", "rbsim": "asan", "thsim": "tsan"}


def exe_for(sim):
    flavour = FLAVOUR[sim]
    return os.path.join(os.path.dirname(build.build([flavour])[flavour]), sim)


def known_findings(pid):
    try:
        d = json.load(open(os.path.join(VERIF, "known_findings.json")))
    except OSError:
        return []
    return [k for k in d.get("known", []) if k["property"] == pid]


def campaign(exe, pid, seed, runs, tlimit, out, thorough, jobs=JOBS, batch=64, mintime=15):
    os.makedirs(out, exist_ok=True)
    res = os.path.join(out, pid + ".result.json")
    if os.path.exists(res):
        os.unlink(res)
    cmd = [exe, "campaign", pid, "--seed", str(seed), "--runs", str(runs), "--batch", str(batch), "--jobs", str(jobs),
           "--time", str(tlimit), "--mintime", str(mintime), "--out", out]
    if thorough:
        cmd += ["--thorough", "1"]
    p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, errors="replace")
    if p.stderr:
        sys.stderr.write(p.stderr[-4000:])
    if p.returncode not in (0, 1, 4) or not os.path.exists(res):
        print("ERROR: the simulator ended with status %d" % p.returncode)
        sys.exit(3)
    return p.returncode, json.load(open(res))


def selftest(pids):
    """the same seeds with different worker counts and batch sizes: the histories must be identical"""
    bad = 0
    for pid in pids:
        c = props.PROPS[pid]
        exe = exe_for(c["sim"])
        n = c.get("selftest_runs", 3000)
        hs = []
        for jobs, batch in ((8, 64), (3, 17), (1, 200), (8, 5)):
            _, r = campaign(exe, pid, 77, n, 600, os.path.join(VERIF, "out", "selftest"), False, jobs, batch, 0)
            hs.append(r["history_hash"])
        ok = len(set(hs)) == 1
        print("selftest %s: %d runs x 4 layouts of workers and batches: %s" % (pid, n, "identical histories" if ok else "DIFFERENT " + " ".join(hs)))
        bad += not ok
    return bad


def check(pid):
    t0 = time.time()
    c = props.PROPS[pid]
    tier = os.environ.get("VERIF_TIER", "quick")
    if tier not in ("quick", "thorough"):
        tier = "quick"
    seed = int(os.environ.get("VERIF_SEED", "1"))
    exe = exe_for(c["sim"])
    t_build = time.time() - t0
    thorough = tier == "thorough"
    out = os.path.join(VERIF, "out", tier)
    runs = c["thorough_runs"] if thorough else c["quick_runs"]
    tlimit = c.get("thorough_time", 700) if thorough else c.get("quick_time", 60)
    rc, r = campaign(exe, pid, seed, runs, tlimit, out, thorough)
    disturbed = 0
    if r["unreproduced"] and not r["violations"]:
        # something outside of the simulation disturbed a run: the whole search is repeated, once
        disturbed = r["unreproduced"]
        rc, r = campaign(exe, pid, seed, runs, tlimit, out, thorough)
    known = known_findings(pid)
    new, old = [], []
    for v in r["violations"]:
        for k in known:
            if re.search(k["class"], v["class"]) and re.search(k.get("match", ""), v["detail"]):
                old.append((k, v))
                break
        else:
            new.append(v)
    det = None
    if not new and not r["unreproduced"]:
        n = min(c.get("selftest_runs", 3000), 1000)
        _, a = campaign(exe, pid, seed, n, 120, os.path.join(VERIF, "out", "det"), thorough, JOBS, 64, 0)
        _, b = campaign(exe, pid, seed, n, 120, os.path.join(VERIF, "out", "det"), thorough, 3, 23, 0)
        det = a["history_hash"] == b["history_hash"]
        if not det:
            _, a = campaign(exe, pid, seed, n, 120, os.path.join(VERIF, "out", "det"), thorough, JOBS, 64, 0)
            _, b = campaign(exe, pid, seed, n, 120, os.path.join(VERIF, "out", "det"), thorough, 3, 23, 0)
            det = a["history_hash"] == b["history_hash"]
            disturbed += 1
    faults = {k[6:]: v for k, v in r["counters"].items() if k.startswith("fault.")}
    probes = {k: v for k, v in r["counters"].items() if not k.startswith("fault.")}
    wall = max(r["wall"], 1e-6)
    ev = {
        "property": pid, "tier": tier, "seed": seed, "level": "exploration",
        "coverage": {
            "evaluations": r["runs"],
            "distinct_nontrivial": r["distinct_nontrivial"],
            "rule": c["rule"],
            "samples": r["samples"],
            "distinct_histories": r["distinct_runs"],
            "distinct_states": r["states"],
            "distinct_states_measure": c["states"],
            "simulated_runs_per_hour": int(r["runs"] / wall * 3600),
            "seeds_per_hour": int(r["runs"] / wall * 3600),
            "simulated_time": "%d simulated steps (choices of the scheduler/fault plan/workload); the system reads no clock, so a step is the unit of time" % r["choices"],
            "choices": r["choices"],
            "faults_injected": faults,
            "probes": probes,
            "real_components": c["real"],
            "stubbed_components": c["stub"],
            "planned_runs": r["planned"],
            "same_histories_with_other_worker_layout": det,
            "disturbed_from_outside": disturbed,
            "build_s": round(t_build, 2),
        },
        "assumptions": c["assume"],
        "wall_s": round(time.time() - t0, 2),
        "violations": len(new),
    }
    if c.get("interleavings"):
        ev["coverage"]["distinct_interleavings"] = r["states"]
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    with open(os.path.join(VERIF, "evidence", pid + ".json"), "w") as f:
        json.dump(ev, f, indent=1)
        f.write("\n")
    for k, v in old:
        print("KNOWN-FINDING: property=%s %s" % (pid, k["what"]))
    print("%s %s seed=%d: %d simulated runs (%d distinct non-trivial, %d states) in %.1f s after a %.1f s build; faults %s" % (
        pid, tier, seed, r["runs"], r["distinct_nontrivial"], r["states"], wall, t_build, json.dumps(faults, sort_keys=True)))
    for v in new:
        print("  %s: %s" % (v["class"], v["detail"][:600]))
        print("VIOLATION property=%s replay=%s" % (pid, v["replay"]))
    if new:
        return 1
    if r["unreproduced"]:
        print("ERROR: %d violation candidates did not reproduce in a fresh process" % r["unreproduced"])
        return 4
    if not det:
        print("ERROR: the same seeds gave different histories with another layout of workers")
        return 5
    if r["runs"] < 50 or r["distinct_nontrivial"] < 20:
        print("ERROR: too few simulated runs were executed")
        return 6
    return 0


def main():
    a = sys.argv[1:]
    if not a:
        print(__doc__)
        return 2
    if a[0] == "--setup":
        print(build.build(sorted({FLAVOUR[c["sim"]] for c in props.PROPS.values()})))
        return 0
    if a[0] == "--selftest":
        return 1 if selftest(a[1:] or sorted(props.PROPS)) else 0
    if a[0] == "--replay":
        for line in open(a[1], errors="replace"):
            if line.startswith("property "):
                pid = line.split()[1]
                return subprocess.run([exe_for(props.PROPS[pid]["sim"]), "replay", a[1]]).returncode
        return 2
    if a[0] not in props.PROPS:
        print("unknown property " + a[0])
        return 2
    return check(a[0])


if __name__ == "__main__":
    sys.exit(main())
