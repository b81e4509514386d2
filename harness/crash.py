"""Histories in which commands are interrupted.

At some points of a history, a command is run several times from the same
state: once stopping at every call that changes a file, to look at what there
is at that time, and then several times ending it at one of these calls and
going on from there.
"""
import errno
import json
import os
import random
import shutil
import signal
import subprocess
import time
import traceback

import gen
import world as W


class Branches:
    """Do several things from the same state."""
    def __init__(self, w):
        self.w = w
        self.root = w.root
        self.copy = w.root + ".copy"
        self.out = w.root + ".out"
        self.count = 0
        self.results = []

    def save(self):
        self.forget()
        subprocess.run(["cp", "-a", self.root, self.copy], check=True)

    def restore(self):
        subprocess.run(["chmod", "-R", "u+rwx", self.root], check=False)
        shutil.rmtree(self.root)
        subprocess.run(["cp", "-a", self.copy, self.root], check=True)

    def forget(self):
        if os.path.isdir(self.copy):
            subprocess.run(["chmod", "-R", "u+rwx", self.copy], check=False)
            shutil.rmtree(self.copy)

    def branch(self, ident, action, keep=True):
        """Do something in a process of its own and record it as a trace."""
        self.count += 1
        pid = os.fork()
        if not pid:
            w = self.w
            try:
                w.rng = random.Random(ident)
                w.events = []
                w.pool = []
                w.pool_index = {}
                w.live_at_first = sorted(w.live)
                w.log = list(w.log)
                extra = action(w)
                result = {"trace": w.trace(ident), "story": w.story(),
                          "extra": extra}
            except BaseException:
                result = {"error": traceback.format_exc()}
            with open(self.out, "w") as file:
                json.dump(result, file)
            os._exit(0)
        os.waitpid(pid, 0)
        with open(self.out) as file:
            result = json.load(file)
        os.unlink(self.out)
        if keep or "error" in result:
            self.results.append(result)
        self.restore()
        return result


def step(w, kind, c, start=1, each=None, **options):
    """Run a command, stopping it before each change.

    Returns:
        The result of the command, the states there were, and the first call
        at which each of them was seen.
    """
    mids, calls = [], []
    pid, pipe = w.start(kind, c, fault=(W.STOPALL, start, 0), **options)
    n = start - 1
    while True:
        _, status = os.waitpid(pid, os.WUNTRACED)
        if not os.WIFSTOPPED(status):
            break
        n += 1
        state = w.pack(w.snapshot())
        if not mids or state != mids[-1]:
            mids.append(state)
            calls.append(n)
        if each:
            each(n)
        os.kill(pid, signal.SIGCONT)
    result, message = w.collect(pipe, status)
    return result, message, mids, calls, n


def stepped(w, kind, c, **options):
    """Record a command with all the states during it."""
    own, every = w.exclusions_of(kind, c, options)
    pre = w.snapshot()
    text = w.patterns_of(c)
    start = time.time()
    result, message, mids, calls, n = step(w, kind, c, **options)
    end = time.time()
    w.settle_patterns(kind, c, text, result)
    w.record(kind, c, options, result, message, pre, start, end, own, every,
             extra={"mids": mids, "facts": dict(W.GOOD)})
    return {"calls": calls, "count": n}


def interrupted(w, kind, c, fault, again, **options):
    """Record a command that's interrupted, and what follows."""
    own, every = w.exclusions_of(kind, c, options)
    pre = w.snapshot()
    text = w.patterns_of(c)
    start = time.time()
    result, message = w.run(kind, c, fault=fault, **options)
    end = time.time()
    w.settle_patterns(kind, c, text, "killed")
    w.record("crash", c, options, result, message, pre, start, end, own,
             every, extra={"cmd": kind, "facts": dict(W.GOOD)})
    w.log[-1] = ["cmd", "crash", kind, c, list(fault), result]
    again(w)
    return None


def vanishing(w, kind, c, k, form, again, **options):
    """Record a command during which the remote directory disappears."""
    own, every = w.exclusions_of(kind, c, options)
    pre = w.snapshot()
    text = w.patterns_of(c)
    start = time.time()
    pid, pipe = w.start(kind, c, fault=(W.STOP, k, 0), **options)
    _, status = os.waitpid(pid, os.WUNTRACED)
    there = not os.WIFSTOPPED(status)
    if not there:
        w.take_away(form)
        os.kill(pid, signal.SIGCONT)
        _, status = os.waitpid(pid, 0)
    result, message = w.collect(pipe, status)
    if not there:
        w.bring_back(form)
    end = time.time()
    w.settle_patterns(kind, c, text, "killed")
    w.record("crash", c, options, result, message, pre, start, end, own,
             every, extra={"cmd": kind, "facts": dict(W.GOOD)})
    w.log[-1] = ["cmd", "vanishes", form, kind, c, k, result]
    again(w)


def fault_at(rng, k):
    roll = rng.random()
    if roll < 0.6:
        return (W.KILL, k, 0)
    elif roll < 0.8:
        return (W.FAIL, k, rng.choice([errno.EIO, errno.ENOSPC,
                                       errno.EACCES]))
    return (W.FAILALL, k, rng.choice([errno.ENOSPC, errno.EIO]))


def choose(rng, seen, count):
    """Choose at which calls to interrupt a command.

    Most of them are those at which something changed that's observed.
    """
    calls = seen["calls"]
    points = set(rng.sample(calls, min(len(calls), count * 3 // 4)))
    rest = sorted(set(range(1, seen["count"] + 1)) - points)
    points.update(rng.sample(rest, min(len(rest), count - len(points))))
    return sorted(points)


def overtake(w, player, c):
    """Let another client sync, and work on the same files, after an edit."""
    rng = w.rng
    other = rng.choice([x for x in w.clients if x != c])
    paths = []
    for _ in range(rng.randrange(1, 4)):
        path = player.pick(c, "f")
        if path:
            w.write(c, path, player.size())
            paths.append(path)
    w.do("sync", other)
    for path in paths:
        if w.kind(other, path) in ("f", "p"):
            roll = rng.random()
            if roll < 0.4:
                w.write(other, path, player.size())
            elif roll < 0.7:
                w.delete(other, path)


def play(root, tag, rng, kind, job):
    """Interrupt syncs."""
    base = job["base"]
    faults = job.get("faults", "any")
    w, player = gen.begin(root, tag, rng, base)
    branches = Branches(w)
    for n in range(job.get("rounds", 2)):
        gen.proceed(w, player, rng, rng.randrange(0, 3))
        for _ in range(rng.choice([1, 2, 3, 4, 6, 8])):
            player.act()
        c = rng.choice(w.clients)
        if len(w.clients) > 1 and rng.random() < 0.6:
            overtake(w, player, c)
        branches.save()
        ident = "%s/%d/%d" % (kind, job["n"], n)
        seen = branches.branch(
            ident + "/step", lambda x: stepped(x, "sync", c))
        if "error" in seen:
            break
        points = choose(rng, seen["extra"], job.get("points", 8))
        for k in points:
            fault = fault_at(rng, k)
            if faults == "kill":
                fault = (W.KILL, k, 0)
            elif faults == "fail" and fault[0] == W.KILL:
                fault = (W.FAIL, k, errno.EIO)

            def again(x):
                x.do("sync", c, orig=1)
                if len(x.clients) > 1 and x.rng.random() < 0.8:
                    x.do("sync", x.rng.choice(
                        [y for y in x.clients if y != c]))
                x.do("sync", c)
            if faults == "away":
                form = rng.choice(["gone", "empty"])
                branches.branch(
                    "%s/%d.%s" % (ident, k, form),
                    lambda x: vanishing(x, "sync", c, k, form, again))
                continue
            branches.branch(
                "%s/%d.%d" % (ident, k, fault[0]),
                lambda x: interrupted(x, "sync", c, fault, again))
        w.do("sync", c)
    branches.forget()
    return branches.results


def explore(w, branches, ident, job, command, c, again, **options):
    """Interrupt a command at several calls and go on from there."""
    faults = job.get("faults", "any")
    branches.save()
    seen = branches.branch(
        ident + "/step", lambda x: stepped(x, command, c, **options))
    if "error" in seen:
        return
    for k in choose(w.rng, seen["extra"], job.get("points", 8)):
        fault = fault_at(w.rng, k)
        if faults == "kill":
            fault = (W.KILL, k, 0)
        branches.branch(
            "%s/%d.%d" % (ident, k, fault[0]),
            lambda x: interrupted(x, command, c, fault, again, **options))


def refused(w, c):
    """Try to use a profile that isn't set up."""
    kind = w.rng.choice(["sync", "sync", "empty", "reset"])
    w.do(kind, c, keep=w.rng.random() < 0.5, by_path=w.rng.random() < 0.3)


def play_init(root, tag, rng, kind, job):
    """Interrupt the set-up of a profile."""
    clients = rng.choice([1, 1, 2])
    base = job["base"]
    w = W.World(root, tag, rng, clients=clients, nasty=rng.random() < 0.7)
    player = gen.Player(w, base)
    opts = gen.KINDS[base][1]
    shared = clients > 1 or rng.random() < 0.3
    player.populate(0 if shared else 1, rng.randrange(1, 9))
    c = 1
    if clients > 1:
        w.init(2, gen.random_config(rng, opts), add=True)
        w.do("sync", 2)
        player.sides = [2]
        for _ in range(rng.randrange(0, 5)):
            player.act()
        if rng.random() < 0.5:
            w.do("sync", 2)
    patterns = None
    if rng.random() < 0.4:
        patterns = gen.random_patterns(rng, w, player.paths)
    options = w.prepare(c, gen.random_config(rng, opts), patterns, add=shared)
    branches = Branches(w)

    def again(x):
        while (x.meta(c)["st"] in ("partial", "bare")
               and x.rng.random() < 0.3):
            refused(x, c)
        different = dict(options)
        if x.meta(c)["st"] == "partial" and x.rng.random() < 0.3:
            # What isn't given again is remembered.
            different["add"] = False
            different.pop("exclude", None)
        x.do("init", c, orig=1, **different)
        x.do("sync", c)
        for other in x.clients:
            x.do("sync", other)
    explore(w, branches, "%s/%d" % (kind, job["n"]), job, "init", c, again,
            **options)
    branches.forget()
    return branches.results


def play_reset(root, tag, rng, kind, job):
    """Interrupt the reset of a profile."""
    w, player = gen.begin(root, tag, rng, job["base"])
    branches = Branches(w)
    gen.proceed(w, player, rng, rng.randrange(0, 3))
    c = rng.choice(w.clients)
    if rng.random() < 0.6:
        w.do("sync", c)
        for _ in range(rng.choice([0, 1, 2])):
            player.act()
    else:
        for _ in range(rng.choice([1, 2, 3, 4])):
            player.act()
    keep, bare = rng.random() < 0.4, rng.random() < 0.2

    def again(x):
        roll = x.rng.random()
        if roll < 0.5:
            x.do("reset", c, keep=keep, bare=bare)
        elif roll < 0.7:
            x.do("sync", c)
            x.do("reset", c, keep=keep, bare=bare)
        if x.meta(c)["st"] == "initialized":
            x.do("reset", c, keep=True, bare=True)
        for other in x.clients:
            if x.meta(other)["st"] == "initialized":
                x.do("sync", other)
        if not os.listdir(x.remote) and not x.clients[1:]:
            x.init(c, x.config[c])
            x.do("sync", c)
    explore(w, branches, "%s/%d" % (kind, job["n"]), job, "reset", c, again,
            keep=keep, bare=bare)
    branches.forget()
    return branches.results
