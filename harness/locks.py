"""Commands that are started while others run on the same profile."""
import os
import signal
import time

import gen
import life
import world as W
from world import World


class Command:
    """A command that stops before it takes the lock, and while it works."""
    def __init__(self, w, kind, c, target, **options):
        self.w = w
        self.kind = kind
        self.c = c
        self.options = options
        self.facts = dict(W.GOOD)
        self.held = False
        self.look()
        self.report, report = os.pipe()
        self.pid, self.pipe = w.start(
            kind, c, fault=(W.SCHED, target, report), **options)
        os.close(report)
        self.state = self.wait()

    def look(self):
        """Remember what there is at the time at which the command starts."""
        w = self.w
        if self.kind == "init":
            adding = self.options["add"]
            self.facts = dict(
                W.GOOD,
                local="full" if adding and os.listdir(w.local(1)) else "ok",
                remote="full" if not adding and os.listdir(w.remote)
                else "ok")
        self.own, self.every = w.exclusions_of(
            self.kind, self.c, self.options)
        self.pre = w.snapshot()
        self.text = w.patterns_of(self.c)
        self.begin = time.time()

    def wait(self):
        """Wait until the command stops or ends."""
        _, self.status = os.waitpid(self.pid, os.WUNTRACED)
        if not os.WIFSTOPPED(self.status):
            return "ended"
        return {b"l": "waiting", b"c": "working"}[os.read(self.report, 1)]

    def proceed(self, others):
        """Let the command go on."""
        if self.state == "waiting":
            self.look()
            self.held = any(x.state == "working" for x in others)
        os.kill(self.pid, signal.SIGCONT)
        self.state = self.wait()

    def kill(self):
        if self.state == "waiting":
            self.look()
        os.kill(self.pid, signal.SIGKILL)
        os.kill(self.pid, signal.SIGCONT)
        self.state = self.wait()

    def record(self):
        w = self.w
        if self.state == "ended" and self.pipe is not None:
            os.close(self.report)
            result, message = w.collect(self.pipe, self.status)
            self.pipe = None
            end = time.time()
            w.settle_patterns(self.kind, self.c, self.text, result)
            extra = {"held": self.held, "facts": self.facts}
            kind = self.kind
            if result == "killed":
                extra["cmd"] = kind
                kind = "crash"
            w.record(kind, self.c, self.options, result, message, self.pre,
                     self.begin, end, self.own, self.every, extra=extra)
            if self.held:
                w.log[-1].append("while another works")
            if self.kind == "reset" and result == "ok":
                w.seen[self.c] = {}


def start(w, rng, kind, config):
    options = {}
    if kind == "path":
        kind = "sync"
        options["by_path"] = True
    elif kind in ("keep", "drop", "bare"):
        options = {"keep": kind == "keep", "bare": kind == "bare"}
        kind = "reset"
    elif kind == "init":
        w.config[1] = w.config[1] or config
        options["add"] = bool(os.listdir(w.remote))
        options["template"] = w.write_template(1, w.config[1])
    if kind != "init" and rng.random() < 0.2:
        options["by_path"] = True
    return Command(w, kind, 1, rng.choice([1, 2, 3, 4, 5, 7, 9, 12, 20]),
                   **options)


def elsewhere(w, root, tag, rng):
    """Run a command on a profile that has nothing to do with this one."""
    os.mkdir(root)
    other = World(root, tag, rng, clients=1)
    player = gen.Player(other, "plain")
    player.populate(1, 4)
    other.init(1, gen.random_config(rng, player.opts))
    player.act()
    return other, player


def play(root, tag, rng, job):
    """Do with the program what happens in a schedule."""
    os.mkdir(os.path.join(root, "1"))
    w = World(os.path.join(root, "1"), tag, rng, clients=1)
    os.makedirs(os.path.dirname(w.profile_dir(1)), exist_ok=True)
    player = life.Life(w, "plain")
    player.populate(1, rng.randrange(3, 9))
    config = gen.random_config(rng, player.opts)
    config["UseTrash"] = "yes"
    other, other_player = elsewhere(
        w, os.path.join(root, "2"), tag + "o", rng)
    running = {}
    for op, p, kind in job["case"]:
        if op == "begin" and kind == "initialized":
            w.init(1, config)
            w.do("sync", 1)
            # Something to do for whichever command comes first.
            path = player.pick(1, "fp")
            if path:
                w.delete(1, path)
                w.do("sync", 1)
            player.act()
        elif op == "edit":
            if not any(x.state == "working" for x in running.values()):
                for _ in range(rng.randrange(1, 4)):
                    player.act()
        elif op == "start":
            command = running[p] = start(w, rng, kind, config)
            if command.state != "waiting":
                # It hasn't waited for the lock.
                command.held = any(x.state == "working" for x in
                                   running.values() if x is not command)
        elif op in ("lock", "finish", "kill") and p in running:
            command = running[p]
            if command.state == "ended":
                continue
            elif op == "kill":
                command.kill()
            elif op == "lock" and command.state == "waiting":
                command.proceed(running.values())
            elif op == "finish":
                while command.state != "ended":
                    command.proceed(running.values())
        if p in running:
            running[p].record()
            if running[p].state == "working" and rng.random() < 0.3:
                other_player.act()
                other.do(rng.choice(["sync", "sync", "empty"]), 1,
                         held=False)
    for command in running.values():
        if command.state != "ended":
            command.kill()
            command.record()
    return [{"trace": w.trace("lock/%d" % job["n"]), "story": w.story()},
            {"trace": other.trace("lock/%d/other" % job["n"]),
             "story": other.story()}]
