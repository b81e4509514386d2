"""What is done to decide each property."""
import collections
import json

import globs
import model
import record
import tlc

ASSUMPTIONS = [
    "Nobody edits the files of a client while one of its commands runs.",
    "Commands of clients that share a remote directory don't overlap.",
    "A file that changes gets a modification time later than the last sync.",
    "The clock doesn't go back.",
    "File names are valid in the encoding of the file system."]


def jobs_for(kinds, count, seed, **options):
    """Spread a number of histories over some kinds."""
    jobs = []
    for n in range(count):
        job = {"kind": kinds[n % len(kinds)], "n": n, "seed": seed}
        job.update(options)
        jobs.append(job)
    return jobs


def histories(prop, stage, tier, seed, coverage, jobs=None):
    """Record histories of the program and check them with TLC."""
    import check
    if jobs is None:
        jobs = jobs_for(stage["kinds"], stage.get(tier, stage["quick"]), seed,
                        **stage.get("options", {}))
    results, traces, errors, failures, states, steps = check.validate_jobs(
        prop, jobs, module=stage.get("module", "ZielenTrace"))
    coverage["states"] += states
    coverage["transitions"] += steps
    coverage["traces_validated_against_impl"] += len(traces)
    commands = collections.Counter(coverage.get("commands", {}))
    kinds = collections.Counter(coverage.get("kinds of histories", {}))
    for result in results:
        if "trace" not in result:
            continue
        kinds[result["job"]["kind"]] += 1
        for event in result["trace"]["ev"]:
            if event["a"] == "crash":
                commands["interrupted %s: %s" % (
                    event["cmd"], event["res"])] += 1
                continue
            commands["%s %s" % (event["a"], event.get("res", ""))] += 1
    coverage["commands"] = dict(commands)
    coverage["kinds of histories"] = dict(kinds)
    if results and len(coverage["samples"]) < 3:
        for result in results[:2]:
            if "story" in result:
                coverage["samples"].append({
                    "job": result["job"],
                    "history": result["story"]["log"][:40]})
    reports = []
    seen = set()
    for failure in failures:
        key = (failure["clause"], failure["trace"])
        if failure["property"] == prop and key not in seen:
            seen.add(key)
            reports.append(check.explain(failure, results))
    problems = []
    done = {r["job"]["n"] for r in results if "trace" in r}
    missing = len(jobs) - len(done)
    if missing > len(jobs) * 0.02:
        problems.append("%d histories could not be recorded" % missing)
        problems += [e["error"] for e in errors[:2]]
    return {"reports": reports, "problems": problems}


def crashes(prop, stage, tier, seed, coverage):
    """Record histories with interrupted commands and check them with TLC."""
    jobs = jobs_for([stage["kind"]], stage.get(tier, stage["quick"]), seed,
                    **stage["options"])
    for n, job in enumerate(jobs):
        job["base"] = ALL[n % len(ALL)]
    return histories(prop, stage, tier, seed, coverage, jobs)


def models(prop, stage, tier, seed, coverage):
    """Explore the specification and play what it does with the program."""
    jobs = []
    names = list(stage["models"])
    if tier == "thorough":
        names += stage["deep"]
    for name in names:
        known = model.MODELS[name]
        result, cases = model.explore(name, tier)
        found = coverage.setdefault("specification", {})
        coverage["states"] += result["distinct"]
        coverage["transitions"] += result["generated"]
        chosen = model.sample(cases, stage[tier], seed)
        found[name] = {"states": result["distinct"],
                       "transitions": result["generated"],
                       "behaviours": len(cases), "played": len(chosen),
                       "options": dict(known, steps=known[tier])}
        for case in chosen:
            jobs.append({"kind": known.get("kind", "model"), "model": name,
                         "n": len(jobs), "seed": seed, "case": case,
                         "clients": known.get("clients", 1),
                         "stutter": stage.get("stutter", False)})
    return histories(prop, stage, tier, seed, coverage, jobs)


def patterns(prop, stage, tier, seed, coverage):
    """Explore the language of patterns and try what each of them excludes."""
    result, cases = model.explore("glob", tier)
    coverage["states"] += result["distinct"]
    coverage["transitions"] += result["generated"]
    jobs = globs.jobs([json.loads(x) for x in cases], stage[tier], seed)
    coverage.setdefault("specification", {})["glob"] = {
        "states": result["distinct"], "patterns": len(cases),
        "played": sum(len(job["lines"]) for job in jobs),
        "length": model.MODELS["glob"][tier]}
    return histories(prop, stage, tier, seed, coverage, jobs)


STAGES = {"patterns": patterns, "histories": histories, "crashes": crashes,
          "models": models}


def run_stage(prop, stage, tier, seed, coverage):
    return STAGES[stage["stage"]](prop, stage, tier, seed, coverage)


ALL = ["general", "plain", "conflict", "deletion", "trash", "exclude",
       "limit", "symlinks", "types", "many"]


DAEMON = [
    "A sync and the daemon don't write the metadata of a profile within the "
    "same few milliseconds.",
    "The config file is valid whenever the daemon reads it.",
    "The threads of the daemon take turns."]


def H(kinds, quick=320, thorough=2000, **options):
    return dict({"stage": "histories", "kinds": kinds, "quick": quick,
                 "thorough": thorough}, **options)


def C(quick=72, thorough=280, kind="crash", **options):
    """Histories in which commands are interrupted."""
    return {"stage": "crashes", "kind": kind, "quick": quick,
            "thorough": thorough, "options": options}


def M(models, quick=150, thorough=3000, deep=(), **options):
    """Behaviours of the specification.

    Args:
        deep: Models that are only explored in a thorough check.
    """
    return dict({"stage": "models", "models": models, "quick": quick,
                 "thorough": thorough, "deep": list(deep), "once": True},
                **options)


PLANS = {
    "P01": {"stages": [M(["merge"], deep=["alone"]), H(ALL)]},
    "P02": {"stages": [M(["merge"], deep=["race", "life"]), H(ALL)]},
    "P03": {"stages": [M(["merge"]), H(
        ["conflict", "types", "conflict", "general", "symlinks", "exclude"])]},
    "P04": {"stages": [M(["alone"], deep=["race"]), H(
        ["plain", "general", "many", "symlinks", "deletion"])]},
    "P05": {"stages": [M(["merge"], deep=["alone"]), H(
        ["deletion", "general", "deletion", "types", "exclude"])]},
    "P06": {"stages": [M(["trash"]), H(
        ["trash", "deletion", "trash", "limit"])]},
    "P07": {"stages": [M(["trash"]), H(["trash"])]},
    "P08": {"stages": [M(["exclude"]), H(
        ["exclude", "exclude", "life-exclude"], 500)]},
    "P09": {"stages": [M(["limit"]), H(
        ["limit", "limit", "exclude", "general"])]},
    "P10": {"stages": [M(["limit"]), H(["limit"])]},
    "P11": {"stages": [M(["limit"]), H(["limit", "general", "many"])]},
    "P12": {"stages": [M(["alone"]), H(ALL)]},
    "P13": {"stages": [M(["crash"], deep=["crashrace"]), C(faults="kill")]},
    "P14": {"stages": [M(["life"]), H(["life"], 700)]},
    "P15": {"stages": [M(["life"]), H(["life"], 700)]},
    "P16": {"stages": [M(["life"]), H(["life"], 700)]},
    "P17": {"stages": [C(96, 400, "crash-init")]},
    "P18": {"stages": [C(120, 500, "crash-reset")]},
    "P19": {"stages": [M(["lock"], 500)]},
    "P20": {"stages": [H(ALL, 260)]},
    "P22": {"stages": [M(["links"]), H(["symlinks"])]},
    "P23": {"stages": [M(["merge"]), H(ALL)]},
    "P24": {"stages": [M(["daemon"], 150, module="ZielenDaemonTrace"),
                       H(["daemon"], 300, module="ZielenDaemonTrace")],
            "assumptions": DAEMON},
    "P25": {"stages": [M(["merge"], deep=["race", "alone", "exclude"]),
                       H(ALL)]},
    "P26": {"stages": [M(["merge"], deep=["life"]), H(ALL)]},
    "P27": {"stages": [C(faults="fail")]},
    "P29": {"stages": [{"stage": "patterns", "quick": 2000, "thorough": 12000,
                        "once": True},
                       H(["patterns"], 160)]},
    "P30": {"stages": [M(["trash", "life"], 150, stutter=True),
                       H(["away-" + kind for kind in ALL], 140),
                       C(26, 240, faults="away")]},
    "P28": {"stages": [M(["crash"]), C()]},
}
