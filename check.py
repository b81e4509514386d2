#!/usr/bin/env python3
"""Decide whether a property holds.

Usage: check.py PROPERTY [quick|thorough]
       check.py replay FILE
"""
import json
import os
import sys
import time
import traceback

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.join(HERE, "harness"))
import plans
import record
import tlc

EVIDENCE = os.path.join(HERE, "evidence")
KNOWN = os.path.join(HERE, "KNOWN-FINDINGS.txt")


def known_findings(prop):
    """Get the findings that are listed for a property.

    The clauses that say exactly what fails are the keys.
    """
    found = {}
    prefix = "finding: property=%s clause=" % prop
    if os.path.exists(KNOWN):
        with open(KNOWN) as file:
            for line in file:
                if line.startswith(prefix):
                    clause, text = line[len(prefix):].strip().split(" ", 1)
                    found[clause] = text
    return found


def explain(failure, results):
    """Describe a failure with the history that led to it."""
    for result in results:
        trace = result.get("trace")
        if trace and trace["id"] == failure["trace"]:
            event = trace["ev"][failure["event"] - 1]
            pool = trace["pool"]
            if "rows" in event:
                first = max(0, failure["event"] - 25)
                return {
                    "failure": failure, "job": result["job"],
                    "history": [
                        dict(e, rows=pool[e["rows"] - 1]) for e in
                        trace["ev"][first:failure["event"]]],
                    "names": result.get("story", {}).get("names")}

            def state(s):
                c = event["c"] - 1
                return {"local": pool[s["L"][c] - 1],
                        "remote": pool[s["R"] - 1],
                        "profile rows": pool[s["K"][c] - 1],
                        "remote rows": pool[s["D"] - 1],
                        "trash": pool[s["X"] - 1],
                        "settings": pool[s["M"][c] - 1]}
            story = result.get("story", {})
            log, n = [], 0
            for line in story.get("log", []):
                log.append(line)
                n += line[0] == "cmd"
                if n >= failure["event"]:
                    break
            return {
                "failure": failure, "job": result["job"], "history": log,
                "names": story.get("names"),
                "event": {k: v for k, v in event.items()
                          if k not in ("pre", "post")},
                "before": state(event["pre"]), "after": state(event["post"])}
    return {"failure": failure}


def validate_jobs(prop, jobs, workers=8, module="ZielenTrace"):
    results = record.record(jobs, workers=workers)
    traces = [r["trace"] for r in results if "trace" in r]
    errors = [r for r in results if "error" in r]
    failures, states, steps = tlc.validate(traces, [prop], module)
    return results, traces, errors, failures, states, steps


def main():
    if sys.argv[1] == "replay":
        return replay(sys.argv[2])
    prop = sys.argv[1]
    tier = (sys.argv[2] if len(sys.argv) > 2
            else os.environ.get("VERIF_TIER", "quick"))
    seed = int(os.environ.get("VERIF_SEED", "1"))
    plan = plans.PLANS[prop]
    start = time.time()
    os.makedirs(EVIDENCE, exist_ok=True)
    for name in os.listdir(EVIDENCE):
        if name.startswith("replay-%s-" % prop):
            os.unlink(os.path.join(EVIDENCE, name))

    coverage = {"states": 0, "transitions": 0,
                "traces_validated_against_impl": 0, "samples": []}
    known = known_findings(prop)
    listed = 0
    reports = []
    problems = []
    budget = plan.get("budget", 600) if tier == "thorough" else 0
    rounds = 0
    while True:
        for stage in plan["stages"]:
            if rounds and stage.get("once"):
                continue
            stage_result = plans.run_stage(
                prop, stage, tier, seed + 1000 * rounds, coverage)
            for report in stage_result["reports"]:
                if report["failure"].get("clause") in known:
                    listed += 1
                else:
                    reports.append(report)
            problems += stage_result["problems"]
        rounds += 1
        if reports or time.time() - start > budget * 0.8 or rounds >= 50:
            break

    for clause, finding in known.items():
        print("KNOWN-FINDING: property=%s %s" % (prop, finding))
    coverage["known findings seen"] = listed
    violations = 0
    for n, report in enumerate(reports[:20]):
        path = os.path.join(EVIDENCE, "replay-%s-%d.json" % (prop, n))
        with open(path, "w") as file:
            json.dump(report, file, indent=1, default=str)
        print("VIOLATION property=%s replay=%s" % (prop, path))
        print("  " + json.dumps(report.get("failure", report))[:600])
        violations += 1
    coverage["samples"] = coverage["samples"][:3] or ["none"]
    coverage["rounds"] = rounds
    evidence = {
        "property": prop, "tier": tier, "seed": seed,
        "level": plan.get("level", "model_checking"), "coverage": coverage,
        "assumptions": plan.get("assumptions", plans.ASSUMPTIONS),
        "wall_s": round(time.time() - start, 1), "violations": len(reports)}
    with open(os.path.join(EVIDENCE, prop + ".json"), "w") as file:
        json.dump(evidence, file, indent=1)
    print("%s: %s, %d traces, %d states, %d violations, %.0f s" % (
        prop, tier, coverage["traces_validated_against_impl"],
        coverage["states"], len(reports), time.time() - start))
    if violations:
        return 1
    if problems:
        for problem in problems[:5]:
            print(problem, file=sys.stderr)
        return 2
    return 0


def replay(path):
    """Run the history in a report again."""
    with open(path) as file:
        report = json.load(file)
    prop = report["failure"]["property"]
    job = report["job"]
    results, traces, errors, failures, _, _ = validate_jobs(prop, [job], 1)
    known = known_findings(prop)
    failures = [f for f in failures if f["clause"] not in known]
    for failure in failures:
        print("VIOLATION property=%s replay=%s" % (prop, path))
        print(json.dumps(explain(failure, results), indent=1))
    for error in errors:
        print(error["error"])
    return 1 if failures else 0


if __name__ == "__main__":
    try:
        sys.exit(main())
    except Exception:
        traceback.print_exc()
        sys.exit(3)
