#!/usr/bin/env python3
"""Decides one property by seeded simulation.

  check.py <property> [--tier quick|thorough] [--time S]
  check.py --replay <file>          rebuilds and replays a violation (exit 1 when it reproduces)

Exit 0: held on everything explored. Exit 1 and a VIOLATION line: broken. Anything else: error of the check.
"""
import argparse, glob, json, os, re, shutil, subprocess, sys, time

HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
sys.path.insert(0, HERE)
import build as builder
import meta

KNOWN = os.path.join(VERIF, "known_findings.txt")


def load_known(prop):
    """Lines: `finding: property=<id> match=<regex over "scenario|class|message"> :: <what fails>`"""
    out = []
    if os.path.exists(KNOWN):
        for line in open(KNOWN):
            m = re.match(r"finding: property=(\S+) match=(.*?) replay=(\S+) :: (.*)$", line.strip())
            if m and m.group(1) == prop:
                out.append((re.compile(m.group(2)), m.group(3), m.group(4)))
    return out


def run(cmd, timeout):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=timeout, errors="replace")


def header(path):
    d = {}
    with open(path, errors="replace") as f:
        for line in f:
            k, _, v = line.rstrip("\n").partition(" ")
            if k in ("scenario", "class", "message", "hash", "seed"):
                d[k] = v
            if k in ("stream", "trace"):
                break
    return d


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("property", nargs="?")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--time", type=float)
    ap.add_argument("--replay")
    ap.add_argument("--jobs", type=int, default=8)
    a = ap.parse_args()
    t0 = time.time()

    exe = builder.build("sim")
    if a.replay:
        r = subprocess.run([exe, "replay", "--file", a.replay, "--trace"])
        return r.returncode

    prop, tier = a.property, a.tier
    seed = int(os.environ.get("VERIF_SEED", "1"))
    info = meta.PROPS[prop]
    base = seed * 1_000_000_000 + (500_000_000 if tier == "thorough" else 0)
    search_time = a.time or (info.get("quick_time", 30) if tier == "quick" else info.get("thorough_time", 420))
    min_runs = info.get("min_runs", 2000)
    out = os.path.join(VERIF, "build", "run", prop)
    shutil.rmtree(out, ignore_errors=True)
    os.makedirs(out)
    print("check %s tier=%s seed=%d (runs %d..)" % (prop, tier, seed, base), flush=True)

    r = run([exe, "search", "--property", prop, "--seed-base", str(base), "--time", str(search_time),
             "--jobs", str(a.jobs), "--min-runs", str(min_runs), "--tier", tier, "--out", out], 850 if tier == "quick" else 7200)
    if r.stdout.strip():
        print(r.stdout[-4000:])
    if r.returncode not in (0, 1):
        print("search failed with", r.returncode)
        return 2
    s = json.load(open(os.path.join(out, "summary.json")))

    # determinism across processes and worker counts: the same seeds in fresh processes
    fresh = 0
    diverged = []
    n = 6 if tier == "quick" else 24
    procs = []
    for i in range(n):
        sd = base + i * 7
        for k in range(2):
            env = dict(os.environ)
            env["SIM_PADDING"] = "x" * (k * 777 + i)
            procs.append((sd, subprocess.Popen([exe, "run", "--property", prop, "--seed", str(sd), "--tier", tier],
                                               stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, text=True, env=env, errors="replace")))
        if len(procs) >= 8 or i == n - 1:
            got = {}
            for sd, p in procs:
                o = p.communicate(timeout=200)[0]
                m = re.search(r"status=(\d+) class=(\S*) hash=(\d+)", o)
                got.setdefault(sd, set()).add(m.groups() if m else ("?", o[-100:]))
                fresh += 1
            for sd, v in got.items():
                if len(v) > 1:
                    diverged.append((sd, sorted(map(str, v))))
            procs = []

    # violations
    raws = sorted(glob.glob(os.path.join(out, "raw-*.replay")))
    known = load_known(prop)
    seen, reported, unreproduced, known_hits = set(), [], [], set()
    for raw in raws:
        h = header(raw)
        key = (h["scenario"], h["class"], re.sub(r"\d+", "#", h["message"])[:60])
        if key in seen or len(reported) >= 2:
            continue
        seen.add(key)
        text = "%s|%s|%s" % (h["scenario"], h["class"], h["message"])
        kn = [w for rx, rp, w in known if rx.search(text)]
        if kn:
            known_hits.update(kn)
            continue
        mini = os.path.join(out, "violation-%s-%s.replay" % (h["scenario"], h["seed"]))
        run([exe, "minimise", "--file", raw, "--out", mini, "--time", "25" if tier == "quick" else "120"], 400)
        final = mini if os.path.exists(mini) else raw
        ok = False
        for cand in [final, raw]:
            hh = header(cand)
            rr = run([exe, "replay", "--file", cand], 200)
            m = re.search(r"class=(.*) hash=(\d+)", rr.stdout)
            if rr.returncode == 1 and m and m.group(1) == hh["class"] and (m.group(2) == hh["hash"] or hh["class"] == "hang"):
                reported.append((cand, hh))
                ok = True
                break
        if not ok:
            unreproduced.append(h)

    samples = []
    for f in sorted(glob.glob(os.path.join(out, "sample-*.txt")))[:8]:
        samples.append(open(f, errors="replace").read()[:900])
    wall = time.time() - t0
    per_h = s["runs"] / max(s["wall_s"], 0.001) * 3600
    ev = {
        "property": prop, "tier": tier, "seed": seed, "level": "exploration",
        "coverage": {
            "evaluations": s["runs"],
            "distinct_nontrivial": s["distinct"],
            "rule": "One evaluation is one simulated run: one seed decides the generated program or operation history, the "
                    "schedule, the address space layout and every fault. Non-trivial: the run recorded at least 8 events. "
                    "Distinct: the hash over the whole event log (schedule, faults, observations) differs from every other run. "
                    + info["rule"],
            "samples": samples or ["(every run of this search failed)"],
            "seed_first": base,
            "runs_per_hour": int(per_h),
            "events": s["events"],
            "simulated_ms": s["time"].get("simulated_ms", 0),
            "faults_fired": s["faults"],
            "probes": s["probes"],
            "workload": s["stats"],
            "runs_per_scenario": s["scenarios"],
            "runs_discarded": s["discarded"],
            "determinism": {"rechecked_in_search": s["rechecked"], "diverged_in_search": s["nondeterministic"],
                            "fresh_process_runs": fresh, "diverged_fresh": len(diverged)},
            "real_components": info.get("real", meta.REAL),
            "stubbed_components": info.get("stub", meta.STUB),
        },
        "assumptions": meta.ASSUMPTIONS + info.get("assumptions", []),
        "wall_s": round(wall, 2),
        "violations": len(reported),
    }
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    with open(os.path.join(VERIF, "evidence", prop + ".json"), "w") as f:
        json.dump(ev, f, indent=1)

    print("runs %d (%d/h), distinct %d, events %d, faults %s, discarded %d, wall %.1f s, slowest run %d ms (seed %d)" % (
        s["runs"], per_h, s["distinct"], s["events"], json.dumps(s["faults"]), s["discarded"], wall, s["slowest_ms"], s["slowest_seed"]))
    print("probes %s" % json.dumps(s["probes"]))

    for rx, rp, what in known:
        rr = run([exe, "replay", "--file", os.path.join(VERIF, rp)], 200)
        if rr.returncode == 1 or what in known_hits:
            print("KNOWN-FINDING: property=%s %s" % (prop, what))
    if reported:
        for path, h in reported:
            print("violation: scenario %s seed %s class %s: %s" % (h["scenario"], h["seed"], h["class"], h["message"][:1500]))
            print("VIOLATION property=%s replay=%s" % (prop, path))
        return 1
    if unreproduced:
        print("error: a violation was seen but did not replay:", unreproduced)
        return 2
    if diverged or s["nondeterministic"]:
        print("error: executions are not deterministic:", diverged, s["nondeterministic"])
        return 2
    if s["anomalies"]:
        print("error: anomalous runs:", s["anomalies"])
        return 2
    if s["runs"] - s["discarded"] < min(200, min_runs):
        print("error: too few runs")
        return 2
    return 0


if __name__ == "__main__":
    sys.exit(main())
