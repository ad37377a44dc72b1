"""Command line:  python -m sim.check C01 [--tier quick|thorough] [--replay FILE] [--runs N] [--jobs N]

Exit status: 0 held on everything explored; 1 with a VIOLATION line; 2 harness error (never a verdict).
"""
import argparse
import importlib
import json
import os
import subprocess
import sys
import time
from collections import Counter

from . import core, env

EXIT_OK, EXIT_VIOLATION, EXIT_ERROR = 0, 1, 2


def load(pid):
    env.bootstrap()
    prop = importlib.import_module(f"sim.props.{pid.lower()}")
    for name in getattr(prop, "PRELOAD", ()):
        env.import_root(name)
    return prop


def replay(path, verbose=False):
    doc = json.load(open(path))
    prop = load(doc["property"])
    res = core.execute(prop, doc["plan"], keep_log=True) if verbose else core.run_isolated(prop, doc["plan"])
    if res.get("error"):
        print(res["error"], file=sys.stderr)
        return EXIT_ERROR, res
    if res["violation"]:
        return EXIT_VIOLATION, res
    return EXIT_OK, res


def fresh_replay(path, hashseed):
    e = dict(os.environ, PYTHONHASHSEED=str(hashseed), PYTHONDONTWRITEBYTECODE="1")
    p = subprocess.run(
        [core.PY, "-m", "sim.check", "--replay", path, "--json"], cwd=env.VERIF, env=e, capture_output=True, text=True, timeout=300
    )
    try:
        return json.loads(p.stdout.strip().splitlines()[-1])
    except Exception:
        return {"violation": None, "error": p.stderr[-2000:]}


def selftest():
    env.bootstrap()
    names = sorted(f[:-3] for f in os.listdir(os.path.join(env.VERIF, "sim", "props")) if f.startswith("c") and f.endswith(".py"))
    for n in names:
        prop = load(n.upper())
        plan = prop.gen(core.plan_rng(prop.ID, 1, 0), 0)
        r = [core.run_isolated(prop, plan) for _ in range(2)]
        if r[0].get("digest") != r[1].get("digest"):
            print(f"warning: {prop.ID}: two executions of one plan differ")
    print(f"{len(names)} properties ready")
    return EXIT_OK


def main(argv=None):
    ap = argparse.ArgumentParser()
    ap.add_argument("property", nargs="?")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--seed", type=int, default=int(os.environ.get("VERIF_SEED", "1")))
    ap.add_argument("--runs", type=int)
    ap.add_argument("--jobs", type=int, default=int(os.environ.get("SIM_JOBS", "0")) or min(8, os.cpu_count() or 1))
    ap.add_argument("--replay")
    ap.add_argument("--json", action="store_true")
    ap.add_argument("--log", action="store_true")
    ap.add_argument("--digests", help="write one digest per run to this file (determinism self-test)")
    ap.add_argument("--no-evidence", action="store_true")
    ap.add_argument("--no-shrink", action="store_true")
    ap.add_argument("--selftest", action="store_true", help="import everything and run one plan of every property twice")
    a = ap.parse_args(argv)
    if a.selftest:
        return selftest()

    if a.replay:
        code, res = replay(a.replay, a.log)
        doc = json.load(open(a.replay))
        if a.json:
            print(json.dumps({k: res[k] for k in ("violation", "error", "digest")}))
            return code
        for line in res.get("log", []):
            print(line)
        if res["violation"]:
            print(f"  {res['violation']['cls']}: {res['violation']['detail']}")
            print(f"VIOLATION property={doc['property']} replay={a.replay}")
        elif not res.get("error"):
            print(f"property={doc['property']} replay={a.replay}: no violation")
        return code

    t0 = time.monotonic()
    prop = load(a.property)
    pid = prop.ID
    tier = a.tier if a.tier in ("quick", "thorough") else "quick"
    n = a.runs or (prop.N_QUICK if tier == "quick" else prop.N_THOROUGH)
    soft = 420.0 if tier == "quick" else float(os.environ.get("SIM_SOFT_S", "3000"))
    t1 = time.monotonic()

    # listed findings first: each has one fixed plan that shows it
    printed, finding_err = [], None
    keys = {f["key"]: f for f in core.known_findings()["findings"] if f["property"] == pid}
    for key, plan in getattr(prop, "known_plans", lambda: [])():
        if key not in keys:
            continue
        res = core.run_isolated(prop, plan)
        if res.get("error"):
            finding_err = res["error"]
        elif res["known"].get(key):
            print(f"KNOWN-FINDING: property={pid} {keys[key]['what']}")
            printed.append(key)

    results, bad = core.sweep(prop, a.seed, n, a.jobs, soft)
    t_sweep = time.monotonic() - t1
    if a.digests:
        with open(a.digests, "w") as f:
            for r in results:
                f.write(f"{r['i']} {r.get('digest')} {bool(r.get('violation'))} {bool(r.get('error'))}\n")

    viol = [r for r in results if r.get("violation")]
    errs = [r for r in results if r.get("error")]
    faults, probes, known = Counter(), Counter(), Counter()
    for r in results:
        faults.update(r.get("faults", {}))
        probes.update(r.get("probes", {}))
        known.update(r.get("known", {}))
    code, vmsg, shrink_runs = EXIT_OK, None, 0

    if viol:
        outdir = os.path.join(env.VERIF, "evidence", "replays")
        os.makedirs(outdir, exist_ok=True)
        chosen = None
        for r in viol[:4]:
            plan = prop.gen(core.plan_rng(pid, a.seed, r["i"]), r["i"])
            plan.setdefault("prop", pid)
            cls = r["violation"]["cls"]
            small = plan
            if not a.no_shrink and cls != "no-progress":
                small, k = core.shrink(prop, plan, cls)
                shrink_runs += k
            path = os.path.join(outdir, f"{pid}-s{a.seed}-r{r['i']}.json")
            for cand in (small, plan):
                res = core.run_isolated(prop, cand)
                if not res.get("violation"):
                    continue
                json.dump({"property": pid, "seed": a.seed, "run": r["i"], "violation": res["violation"],
                           "digest": res["digest"], "plan": cand}, open(path, "w"), indent=1, sort_keys=True)
                fr = fresh_replay(path, 12345)
                if fr.get("violation") and fr["violation"]["cls"] == res["violation"]["cls"]:
                    exact = fr["digest"] == res["digest"]
                    # a run that repeats only in its verdict (code that reads a clock, an address, ...) is the second choice
                    if chosen is None or exact:
                        chosen = (r["i"], res["violation"], path, exact)
                    if exact:
                        break
            if chosen and chosen[3]:
                break
        if chosen:
            i, vmsg, path, exact = chosen
            code = EXIT_VIOLATION
            if not exact:
                print("  note: the verdict repeats, the event log does not: the code under test has nondeterminism of its own")
            print(f"  seed={a.seed} run={i} {vmsg['cls']}: {vmsg['detail']}")
            print(f"VIOLATION property={pid} replay={path}")
        else:
            print(f"harness error: violation of run {viol[0]['i']} ({viol[0]['violation']['cls']}) did not replay in a fresh process", file=sys.stderr)
            code = EXIT_ERROR
    elif errs or bad or finding_err:
        print("harness error:", (errs[0]["error"] if errs else finding_err or f"worker status {bad}"), file=sys.stderr)
        code = EXIT_ERROR
    elif len(results) < max(1, n // 5):
        print(f"harness error: only {len(results)} of {n} runs finished", file=sys.stderr)
        code = EXIT_ERROR

    wall = time.monotonic() - t0
    shapes = {r.get("shape") for r in results if r.get("nontrivial")}
    stuck = [p for p in getattr(prop, "PROBES", []) if not probes.get(p)]
    ev = {
        "property": pid,
        "tier": tier,
        "seed": a.seed,
        "level": "exploration",
        "coverage": {
            "evaluations": len(results),
            "distinct_nontrivial": len(shapes),
            "rule": prop.RULE,
            "samples": [prop.gen(core.plan_rng(pid, a.seed, i), i) for i in (0, 1)],
            "simulated_runs": len(results),
            "runs_planned": n,
            "seeds_per_hour": round(3600 * len(results) / max(t_sweep, 1e-6)),
            "simulated_time": round(sum(r.get("sim_time", 0) for r in results), 3),
            "simulated_time_unit": getattr(prop, "TIME_UNIT", "operations of the code under test executed under the simulator"),
            "events_logged": sum(r.get("events", 0) for r in results),
            "faults_injected": dict(sorted(faults.items())),
            "probes": dict(sorted(probes.items())),
            "probes_stuck_at_zero": stuck,
            "distinct_measure": getattr(prop, "MEASURE", "distinct (configuration, operation, fault, outcome) traces"),
            "real_components": prop.REAL,
            "stubbed_components": prop.STUBS,
            "shrink_runs": shrink_runs,
            "known_findings_seen": dict(known),
            "harness_errors": len(errs),
            "versions": env.versions(),
        },
        "assumptions": prop.ASSUMPTIONS,
        "wall_s": round(wall, 2),
        "violations": len(viol),
    }
    if not a.no_evidence:
        os.makedirs(os.path.join(env.VERIF, "evidence"), exist_ok=True)
        tmp = os.path.join(env.VERIF, "evidence", f".{pid}.tmp")
        json.dump(ev, open(tmp, "w"), indent=1)
        os.replace(tmp, os.path.join(env.VERIF, "evidence", f"{pid}.json"))
    print(f"{pid} {tier} seed={a.seed}: {len(results)} runs, {len(shapes)} distinct, faults={sum(faults.values())}, "
          f"violations={len(viol)}, errors={len(errs)}, {wall:.1f}s -> exit {code}")
    return code


if __name__ == "__main__":
    sys.exit(main())
