#!/usr/bin/env python3
"""Decides one property by seeded simulation.
usage: check.py PROPERTY [--tier quick|thorough] [--seconds N]
       check.py --replay FILE
Exit 0: held on everything explored. Exit 1: VIOLATION line. Exit 2: no answer."""
import json, os, re, subprocess, sys, tempfile, time

V = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, V)
import build
from props import PROPS, GROUP_NOTES

WORKERS = int(os.environ.get("SIM_WORKERS", "8"))
KNOWN = os.path.join(V, "known_findings.json")


def scenario_binary(scenario):
    for b, (objs, apps, scens) in build.BINARIES.items():
        if scenario in scens:
            return b
    raise SystemExit("no binary for " + scenario)


def replay(path):
    scen = None
    for line in open(path):
        if line.startswith("scenario "):
            scen = line.split()[1]
    b = scenario_binary(scen)
    exe = build.build([b])[b]
    return subprocess.run([exe, "--replay", path]).returncode


def known_for(prop):
    if not os.path.exists(KNOWN):
        return []
    return [k for k in json.load(open(KNOWN))["findings"] if k["property"] == prop and k["status"] == "known"]


def main():
    a = sys.argv[1:]
    if a and a[0] == "--replay":
        return replay(a[1])
    prop = a[0]
    tier = os.environ.get("VERIF_TIER", "quick")
    budget = None
    i = 1
    while i < len(a):
        if a[i] == "--tier":
            tier = a[i + 1]
        elif a[i] == "--seconds":
            budget = float(a[i + 1])
        i += 2
    cfg = PROPS[prop]
    seed = int(os.environ.get("VERIF_SEED", "1"))
    if budget is None:
        budget = cfg.get("quick_s", 30.0) if tier == "quick" else cfg.get("thorough_s", 780.0)
    t0 = time.time()
    bins = sorted({scenario_binary(s) for s, _ in cfg["scenarios"]})
    exes = build.build(bins)
    t_build = time.time() - t0
    os.makedirs(os.path.join(V, "evidence", "replays"), exist_ok=True)
    rdir = os.path.join(V, "evidence", "replays")
    known = known_for(prop)
    kargs = []
    for k in known:
        kargs += ["--known", k["category"], k["match"]]
    total_w = sum(w for _, w in cfg["scenarios"])
    agg = {"runs": 0, "sim_s": 0.0, "steps": 0, "det": 0, "detbad": 0, "known_runs": 0}
    faults, fruns, counters, sched, per_scen = {}, {}, {}, set(), {}
    found, machine_errors, samples = [], [], []
    t_sim = 0.0
    for scen, w in cfg["scenarios"]:
        exe = exes[scenario_binary(scen)]
        share = budget * w / total_w
        t1 = time.time()
        with tempfile.TemporaryDirectory() as td:
            ps = []
            for n in range(WORKERS):
                out = os.path.join(td, "o%d.json" % n)
                cmd = [exe, "--scenario", scen, "--focus", prop, "--first", str(seed * 10000000 + n), "--stride", str(WORKERS),
                       "--runs", "100000000", "--seconds", str(share), "--minimise-seconds", "25" if tier == "quick" else "120",
                       "--tier", tier, "--replay-dir", rdir, "--out", out] + kargs
                ps.append((subprocess.Popen(cmd, stdout=subprocess.DEVNULL, stderr=subprocess.PIPE, text=True), out))
            for p, out in ps:
                try:
                    _, err = p.communicate(timeout=share + 400)
                except subprocess.TimeoutExpired:
                    p.kill()
                    machine_errors.append("%s: worker timed out" % scen)
                    continue
                if p.returncode not in (0, 1) or not os.path.exists(out):
                    machine_errors.append("%s: worker exit %s %s" % (scen, p.returncode, err[-500:]))
                    continue
                o = json.load(open(out))
                agg["runs"] += o["runs"]
                agg["sim_s"] += o["sim_s"]
                agg["steps"] += o["steps"]
                agg["det"] += o["determinism_checks"]
                agg["detbad"] += o["determinism_failures"]
                agg["known_runs"] += o.get("known_runs", 0)
                if o["determinism_failures"]:
                    machine_errors.append("%s: not reproducible: %s" % (scen, o["determinism_bad_seeds"]))
                ps_ = per_scen.setdefault(scen, {"runs": 0, "sim_s": 0.0})
                ps_["runs"] += o["runs"]
                ps_["sim_s"] += o["sim_s"]
                for src, dst in ((o["faults"], faults), (o["fault_runs"], fruns), (o["counters"], counters)):
                    for k, v in src.items():
                        dst[k] = dst.get(k, 0) + v
                sched.update(scen + o_ for o_ in o.get("schedules", []))
                for v in o["violations"]:
                    v["scenario"] = scen
                    found.append(v)
        t_sim += time.time() - t1
        r = subprocess.run([exe, "--scenario", scen, "--focus", prop, "--first", str(seed * 10000000), "--runs", "1", "--trace"] + kargs,
                           stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, text=True, errors="replace")
        lines = [l[:160] for l in r.stdout.splitlines() if not l.startswith("{")]
        samples.append({"scenario": scen, "seed": seed * 10000000, "trace_excerpt": lines[:12] + ["..."] + lines[-6:], "events": len(lines)})
        if found and tier == "quick":
            break
    # a violation counts once a fresh process has reproduced it from its file
    confirmed = []
    for v in found:
        exe = exes[scenario_binary(v["scenario"])]
        r = subprocess.run([exe, "--replay", v["replay"]], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace")
        if r.returncode == 1:
            confirmed.append(v)
        else:
            machine_errors.append("replay of %s did not reproduce exactly (exit %d)" % (v["replay"], r.returncode))
    wall = time.time() - t0
    ev = {
        "property": prop, "tier": tier, "seed": seed, "level": "exploration",
        "coverage": {
            "evaluations": agg["runs"], "distinct_nontrivial": len(sched),
            "rule": "one evaluation = one simulated run of the whole scenario, generated from one seed (first seed %d, stride over %d workers); "
                    "distinct_nontrivial = distinct hashes of the schedule (order of task switches, deliveries, timer firings and results of intercepted calls) "
                    "among runs in which at least one fault fired" % (seed * 10000000, WORKERS),
            "samples": samples,
            "per_scenario": per_scen,
            "runs_per_hour": round(agg["runs"] / max(t_sim, 0.001) * 3600),
            "simulated_seconds": round(agg["sim_s"], 1),
            "scheduling_steps": agg["steps"],
            "faults_injected": faults, "runs_with_fault": fruns, "probes": counters,
            "reproducibility_checks": agg["det"], "reproducibility_failures": agg["detbad"],
            "known_finding_runs": agg["known_runs"],
            "real_components": sorted({x for s, _ in cfg["scenarios"] for x in GROUP_NOTES[s]["real"]}),
            "stubbed_components": sorted({x for s, _ in cfg["scenarios"] for x in GROUP_NOTES[s]["stub"]}),
            "build_s": round(t_build, 1),
        },
        "assumptions": cfg.get("assumptions", []),
        "wall_s": round(wall, 2), "violations": len(confirmed),
    }
    os.makedirs(os.path.join(V, "evidence"), exist_ok=True)
    with open(os.path.join(V, "evidence", prop + ".json"), "w") as f:
        json.dump(ev, f, indent=1)
    print("%s %s: %d runs (%d distinct schedules with faults), %.0f simulated seconds, %d fault kinds, %.0f s"
          % (prop, tier, agg["runs"], len(sched), agg["sim_s"], len(faults), wall))
    for k in known:
        print("KNOWN-FINDING: property=%s %s" % (prop, k["what"]))
    for v in confirmed:
        print("  %s seed %d: %s: %s" % (v["scenario"], v["seed"], v["category"], v["message"][:400]))
    for v in confirmed[:1]:
        print("VIOLATION property=%s replay=%s" % (prop, v["replay"]))
    if confirmed:
        return 1
    if machine_errors:
        for m in machine_errors:
            print("ERROR " + m)
        return 2
    if agg["runs"] == 0:
        print("ERROR nothing ran")
        return 2
    return 0


if __name__ == "__main__":
    sys.exit(main())
