"""Behaviours of the specification, and playing them with the program."""
import json
import os
import random
import re
import tempfile

import away
import tlc
import crash
import world as W
from world import World, BLOCK

#: What is explored, by kind of behaviour: what users and the program do, and
#: the number of steps in a quick and in a thorough check.
MODELS = {
    "merge": {"clients": 2, "edits": ["write", "mkdir", "delete"],
              "commands": ["sync"], "limits": [100], "trash": [True],
              "bases": ["full"], "quick": 4, "thorough": 5},
    "alone": {"clients": 1,
              "edits": ["write", "mkdir", "delete", "symlink", "unsafe"],
              "commands": ["sync"], "limits": [100, 2], "trash": [True],
              "bases": ["full", "empty"], "quick": 4, "thorough": 5},
    "links": {"clients": 2, "edits": ["write", "delete", "symlink", "unsafe"],
              "commands": ["sync"], "limits": [100], "trash": [True],
              "bases": ["full"], "quick": 3, "thorough": 4},
    "trash": {"clients": 1, "edits": ["write", "mkdir", "delete", "limit"],
              "commands": ["sync", "empty"], "limits": [2, 3, 100],
              "trash": [True, False], "bases": ["full"], "quick": 4,
              "thorough": 5},
    "exclude": {"clients": 2, "edits": ["write", "delete", "exclude"],
                "commands": ["sync"], "limits": [100], "trash": [True],
                "bases": ["full"], "quick": 4, "thorough": 5},
    "life": {"clients": 2, "edits": ["write", "delete"],
             "commands": ["sync", "init", "reset"], "limits": [100, 2],
             "trash": [True], "bases": ["full", "local", "remote"],
             "quick": 3, "thorough": 4},
    "crash": {"clients": 2, "edits": ["write", "mkdir", "delete"],
              "commands": ["sync", "crash"], "limits": [100, 2],
              "trash": [True], "bases": ["full"], "quick": 3, "thorough": 4},
    "race": {"clients": 2, "edits": ["write"], "commands": ["sync"],
             "limits": [100, 2], "trash": [True], "bases": ["full"],
             "quick": 5, "thorough": 6},
    "crashrace": {"clients": 2, "edits": ["write"],
                  "commands": ["sync", "crash"], "limits": [2],
                  "trash": [True], "bases": ["full"], "quick": 4,
                  "thorough": 5},
    "limit": {"clients": 1, "edits": ["write", "big", "access", "limit"],
              "commands": ["sync"], "limits": [2, 3, 4, 5],
              "trash": [True], "bases": ["full"], "quick": 4, "thorough": 5},
    "lock": {"module": "ZielenLock", "kind": "lock", "procs": 3, "early": False,
             "kinds": ["sync", "path", "empty", "keep", "drop", "init"],
             "quick": 7, "thorough": 8},
    "glob": {"module": "ZielenGlobMC", "kind": "glob", "quick": 4,
             "thorough": 5},
    "daemon": {"module": "ZielenDaemonMC", "kind": "daemon", "mistake": "",
               "ops": ["access", "wait", "turn", "try", "sync", "jump",
                       "restart"], "quick": 6, "thorough": 7},
}


def explore(name, tier, workers=8, timeout=840, files=None):
    """Explore a model with TLC.

    Returns:
        What TLC said about the exploration, and all behaviours that lead to
        different states.
    """
    model = MODELS[name]
    options = {k: v for k, v in model.items() if k not in (
        "quick", "thorough", "module", "kind")}
    options["steps"] = model[tier]
    with tempfile.TemporaryDirectory() as top:
        path = os.path.join(top, "options.json")
        with open(path, "w") as file:
            json.dump(options, file)
        result = tlc.run(model.get("module", "ZielenMC"), env={"OPTIONS": path}, timeout=timeout,
                         workers=workers, heap="12g", files=files)
    out = result.pop("out")
    if "No error has been found" not in out:
        said = out[max(out.find('"SPECIFICATION"'), 0):]
        said = "\n".join(x for x in said.split("\n") if "CASE" not in x)
        raise tlc.Failed("%s: %s" % (name, said[:3000]))
    cases = set()
    for m in re.finditer(r'^<<"CASE", ("(?:[^"\\]|\\.)*")>>$', out, re.M):
        cases.add(json.loads(m.group(1)))
    return result, sorted(cases)


def longest(cases):
    """Leave out the behaviours that others begin with."""
    cases = [json.loads(x) for x in cases]
    starts = set()
    for case in cases:
        for n in range(1, len(case)):
            starts.add(json.dumps(case[:n]))
    return [x for x in cases if json.dumps(x) not in starts]


def sample(cases, count, seed):
    """Choose some of the behaviours, evenly from those that begin alike."""
    rng = random.Random("model %s" % seed)
    kinds = {}
    for case in longest(cases):
        kinds.setdefault(json.dumps(case[0]), []).append(case)
    for found in kinds.values():
        rng.shuffle(found)
    chosen = []
    while len(chosen) < count and any(kinds.values()):
        for name in sorted(kinds):
            if kinds[name]:
                chosen.append(kinds[name].pop())
    return chosen[:count]


def play(root, tag, rng, job):
    """Do with the program what happens in a behaviour."""
    clients = job["clients"]
    w = World(root, tag, rng, clients=clients, nasty=rng.random() < 0.5)
    words = {"d": "d", "a": "a", "b": "b"}

    def path(p):
        return "/".join(words[x] for x in p.split("/"))

    def limit(blocks):
        return "%dKiB" % (int(blocks) * BLOCK // 1024)

    excluded = {c: set() for c in w.clients}
    for op, side, arg in job["case"]:
        if job.get("stutter") and op in ("sync", "empty", "reset") and (
                w.meta(side)["st"] == "initialized") and rng.random() < 0.7:
            # A command that can't find the remote directory is a stuttering
            # step of the specification.
            away.attempt(w, rng, side, op)
        if op == "begin":
            config = {"StorageLimit": limit(side),
                      "UseTrash": "no" if arg.endswith("-notrash") else "yes"}
            if not arg.startswith("empty"):
                place = 0 if arg.startswith("remote") else 1
                w.write(place, "a", size=BLOCK)
                w.write(place, "d/b", size=BLOCK)
            for c in w.clients:
                if arg.startswith(("local", "remote")):
                    break
                w.init(c, config, add=c > 1)
                w.do("sync", c)
        elif op in ("write", "big", "mkdir", "symlink", "unsafe"):
            kind = w.kind(side, path(arg))
            if not w.parent_ok(side, path(arg)):
                # Files were named differently than in the specification.
                continue
            if kind == "d" or kind and op == "mkdir":
                w.delete(side, path(arg))
            if op in ("write", "big"):
                w.write(side, path(arg), size=BLOCK * (2 if op == "big" else 1))
            elif op == "mkdir":
                w.mkdir(side, path(arg))
            else:
                w.symlink(side, path(arg), "none" if op == "symlink"
                          else "/nonexistent")
        elif op == "delete":
            if w.kind(side, path(arg)):
                w.delete(side, path(arg))
        elif w.meta(side)["st"] != "initialized" and op != "init":
            continue
        elif op == "exclude":
            excluded[side] ^= {arg}
            w.set_patterns(side, "".join(
                "/%s\n" % "/".join(
                    re.sub(r"([*?[])", r"[\1]", x) for x in
                    w.concrete(path(p)).split("/"))
                for p in sorted(excluded[side])) or "\n")
        elif op == "access":
            w.prioritize(side, path(arg), 2)
        elif op == "limit":
            w.set_config(side, StorageLimit=limit(arg))
        elif op == "empty":
            w.do("empty", side)
        elif op == "reset":
            if w.do("reset", side, keep=arg == "keep",
                    bare=arg == "bare") == "ok":
                w.seen[side] = {}
        elif op == "init":
            w.init(side, config, add=arg == "add")
            excluded[side] = set()
        elif op == "crash":
            crash.interrupted(
                w, "sync", side, (W.KILL, rng.randrange(1, 50), 0),
                lambda x: None)
        else:
            w.do(op, side)
    return w
