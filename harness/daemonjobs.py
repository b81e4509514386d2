"""The daemon, which runs while commands do and while files are used."""
import json
import os
import select
import signal
import sqlite3
import subprocess
import sys
import time

import gen
import world as W
from world import World

HERE = os.path.dirname(os.path.abspath(__file__))
MAIN = "main"


class Ended(Exception):
    """The daemon isn't there any more."""


class Watched:
    """The daemon as a process that only does something when it's told to."""
    def __init__(self, w, now, name):
        import zielen
        src = os.path.dirname(os.path.dirname(zielen.__file__))
        env = dict(os.environ, XDG_CONFIG_HOME=w.cfg_home(1), HOME=w.root,
                   TZ=w.zone[1])
        self.errors = open(os.path.join(w.root, "daemon.err"), "a+")
        self.proc = subprocess.Popen(
            [sys.executable, "-W", "ignore", os.path.join(HERE, "watched.py"),
             src, name, repr(now)], stdin=subprocess.PIPE,
            stdout=subprocess.PIPE, stderr=self.errors, cwd=w.root, env=env,
            start_new_session=True)
        self.answer()

    def answer(self):
        if not select.select([self.proc.stdout], [], [], 120)[0]:
            raise RuntimeError("the daemon doesn't answer")
        line = self.proc.stdout.readline()
        if not line:
            self.proc.wait()
            raise Ended()
        self.state = json.loads(line)

    def ask(self, **request):
        self.proc.stdin.write((json.dumps(request) + "\n").encode())
        self.proc.stdin.flush()
        self.answer()

    @property
    def dead(self):
        return self.state["dead"]

    def launched(self):
        return [x for x in self.state["log"] if x[0] == "launch"]

    def kill(self):
        self.proc.kill()
        self.proc.wait()
        self.proc.stdin.close()
        self.proc.stdout.close()
        self.errors.close()


class Sync:
    """A sync that may stop before it ends."""
    def __init__(self, player, argv=None, fault=None):
        self.player = player
        w = player.w
        options = {"argv": argv} if argv else {}
        self.pid, self.pipe = w.start(
            "sync", 1, fault=fault, offset=player.offset(), **options)
        self.state = self.wait()

    def wait(self):
        _, self.status = os.waitpid(self.pid, os.WUNTRACED)
        return "stopped" if os.WIFSTOPPED(self.status) else "ended"

    def proceed(self):
        if self.state == "stopped":
            os.kill(self.pid, signal.SIGCONT)
            self.state = self.wait()

    def result(self):
        return self.player.w.collect(self.pipe, self.status)


class Player:
    """Do things with a client whose daemon runs, and record what happens."""
    def __init__(self, w, rng, script=None):
        self.w = w
        self.rng = rng
        self.script = script
        self.now = self.base = time.time()
        self.t0 = self.now
        self.events = []
        self.pool = []
        self.pool_index = {}
        self.daemon = None
        self.lock = None
        self.sync = None
        self.launch = None
        self.accessed = []

    # The clock ----------------------------------------------------------------
    def offset(self):
        return self.now - time.time()

    def stamp(self, value):
        return int(round((value - self.t0) * 1000))

    def advance(self, seconds):
        self.now += seconds

    # What there is --------------------------------------------------------------
    def rows(self):
        w = self.w
        rows = w.rows(os.path.join(w.profile_dir(1), "local.db"),
                      "directory, priority, local")
        value = {w.abstract(path): {"d": bool(d), "p": int(round(p * 1000))}
                 for path, d, p, _ in rows}
        key = json.dumps(value, sort_keys=True)
        if key not in self.pool_index:
            self.pool.append(value)
            self.pool_index[key] = len(self.pool)
        return self.pool_index[key]

    def times(self):
        import datetime
        info = self.w.info(1) or {}
        result = []
        for name in ("LastAdjust", "LastSync"):
            try:
                result.append(self.stamp(datetime.datetime.strptime(
                    info[name], "%Y-%m-%dT%H:%M:%S.%f").replace(
                        tzinfo=datetime.timezone.utc).timestamp()))
            except (KeyError, TypeError, ValueError):
                result.append(-1000000000)
        return result

    def free(self):
        """Whether somebody could write to the database now."""
        path = os.path.join(self.w.profile_dir(1), "local.db")
        conn = sqlite3.connect(path, timeout=0, isolation_level=None)
        try:
            conn.execute("BEGIN IMMEDIATE")
            conn.execute("ROLLBACK")
            return True
        except sqlite3.OperationalError:
            return False
        finally:
            conn.close()

    def record(self, action, **values):
        adjust, last = self.times()
        config = self.w.config[1]
        event = {"a": action, "t": self.stamp(self.now), "rows": self.rows(),
                 "adj": adjust, "last": last,
                 "half": int(config.get("PriorityHalfLife") or "120"),
                 "intv": int(config.get("SyncInterval") or "20") * 60000}
        event.update(values)
        self.events.append(event)

    # What happens ----------------------------------------------------------------
    def start(self):
        self.daemon = Watched(self.w, self.now, self.w.name(1))
        self.seen(["start"])

    def ended(self):
        self.record("died", why=(self.daemon.dead or "")[-600:])
        raise Ended()

    def seen(self, what, **values):
        """Record something that the daemon did."""
        self.w.log.append(what)
        launches = self.daemon.launched()
        if launches:
            self.launch = launches[-1]
        self.record(what[0], launch=len(launches), held=not self.free()
                    and self.lock is None and self.sync is None, **values)
        if self.daemon.dead is not None:
            self.ended()

    def wake(self, who):
        locked = not self.free()
        due = self.daemon.state["sleepers"][who]
        self.now = max(self.now, due)
        self.daemon.ask(op="wake", who=who, at=self.now)
        self.seen(["turn" if who == MAIN else "try", self.stamp(self.now)],
                  locked=locked)

    def access(self, path, remote=False, is_dir=False):
        """Open a file."""
        w = self.w
        # It doesn't matter what happens after exactly a second.
        while any(abs(self.now - t - 1) < 0.005 for t in self.accessed[-40:]):
            self.advance(0.007)
        self.accessed.append(self.now)
        top = w.mount[1] if remote else w.local(1)
        full = os.path.join(top, w.concrete(path) if path in w.paths
                            else path)
        for name in ("IN_OPEN", "IN_CLOSE_NOWRITE"):
            self.daemon.ask(op="event", path=full, name=name, dir=is_dir,
                            at=self.now)
        w.log.append(["access", path, self.stamp(self.now)])
        self.record("access", path=path, dir=is_dir)

    def hold(self):
        path = os.path.join(self.w.profile_dir(1), "local.db")
        if self.lock is None and self.sync is None and self.free():
            self.lock = sqlite3.connect(path, timeout=0, isolation_level=None)
            self.lock.execute("BEGIN IMMEDIATE")
            self.w.log.append(["lock"])

    def release(self):
        if self.lock is not None:
            self.lock.execute("ROLLBACK")
            self.lock.close()
            self.lock = None
            self.w.log.append(["unlock"])

    def run_sync(self, argv=None, stop=None):
        """Run a sync, maybe just a part of it."""
        self.release()
        busy = self.sync is not None
        fault = (W.STOP, stop, 0) if stop and not busy else None
        sync = Sync(self, argv, fault)
        if sync.state == "stopped":
            self.sync = sync
            self.w.log.append(["part of a sync"])
            # What it has done up to now can't be seen.
            self.record("part", locked=not self.free())
            return None
        return self.end_sync(sync, busy)

    def end_sync(self, sync, busy=False):
        result, message = sync.result()
        self.w.log.append(["sync", result, message[-300:]])
        self.now = max(self.now, self.t0 + self.times()[1] / 1000) + 0.01
        self.record("sync", res=result, busy=busy)
        return result

    def continue_sync(self):
        if self.sync is not None:
            self.sync.proceed()
            sync, self.sync = self.sync, None
            return self.end_sync(sync)

    def finish_launch(self):
        """Run the command that the daemon started, and tell it."""
        _, who, argv = self.launch
        self.launch = None
        result = self.run_sync(["zielen"] + argv[1:])
        if self.rng.random() < 0.2:
            result = "failed"
        self.advance(self.rng.choice([0.01, 0.5, 20]))
        self.daemon.ask(op="finish", who=who, at=self.now,
                        code=0 if result == "ok" else 1)
        self.seen(["finish"])

    def set_config(self, key, value):
        w = self.w
        w.config[1] = dict(w.config[1])
        if value is None:
            w.config[1].pop(key, None)
            w.set_config(1)
        else:
            w.set_config(1, **{key: value})
        self.record("config")

    def restart(self):
        self.w.log.append(["killed"])
        self.daemon.kill()
        self.launch = None
        self.start()

    # Histories ---------------------------------------------------------------------
    def step(self):
        rng = self.rng
        w = self.w
        if self.launch and rng.random() < 0.4:
            if self.sync is not None and rng.random() < 0.7:
                self.continue_sync()
            return self.finish_launch()
        op = rng.choices(
            ["access", "wake", "lock", "config", "sync", "edit", "jump",
             "restart", "quick"], [10, 12, 2, 1, 2, 2, 1.5, 0.4, 3])[0]
        if op == "access":
            for _ in range(rng.randrange(1, 5)):
                self.advance(rng.choice([0.01, 0.2, 0.7, 1.3, 2.5]))
                known = sorted(self.pool[self.events[-1]["rows"] - 1].items())
                roll = rng.random()
                if roll < 0.1 or not known:
                    self.access(".zielen/remote.db", remote=True)
                elif roll < 0.15:
                    self.access("unknown")
                else:
                    path, row = rng.choice(known[:4] if rng.random() < 0.6
                                           else known)
                    self.access(path, rng.random() < 0.4, row["d"])
        elif op in ("wake", "quick"):
            who = rng.choice(sorted(self.daemon.state["sleepers"]))
            if op == "wake":
                self.advance(rng.choice([0, 0, 0.3, 2, 7]))
            self.wake(who)
        elif op == "lock":
            if self.lock is None:
                self.hold()
            else:
                self.release()
        elif op == "config":
            if rng.random() < 0.5:
                self.set_config("SyncInterval", rng.choice(
                    ["1", "5", "20", None]))
            else:
                self.set_config("PriorityHalfLife", rng.choice(
                    ["1", "2", "6", "120", None]))
        elif op == "sync":
            if self.sync is not None:
                self.continue_sync()
            else:
                self.run_sync(stop=rng.choice([None, 3, 6, 9, 12, 15]))
        elif op == "edit":
            if self.sync is None:
                self.edit()
        elif op == "jump":
            self.advance(rng.choice([61, 301, 598, 601, 601, 1201, 4000]))
        elif op == "restart":
            self.release()
            self.restart()

    def follow(self, case):
        """Do what happens in a behaviour of the specification."""
        rng = self.rng
        # A file in the root directory and one that isn't there.
        files = [p for p, row in self.pool[self.events[-1]["rows"] - 1].items()
                 if not row["d"]]
        chosen = {
            "a": rng.choice([p for p in files if "/" not in p] or files),
            "d/b": rng.choice([p for p in files if "/" in p] or files)}
        for op, arg in case[1:]:
            if op == "access":
                self.access(chosen[arg], rng.random() < 0.4)
            elif op == "wait":
                self.advance(arg / 1000)
            elif op == "jump":
                self.advance(601)
            elif op == "turn":
                self.wake(MAIN)
            elif op == "try":
                if self.launch:
                    self.finish_launch()
                for who in sorted(self.daemon.state["sleepers"]):
                    if who != MAIN:
                        self.wake(who)
            elif op == "begin":
                if rng.random() < 0.4:
                    self.hold()
                else:
                    self.edit()
                    self.run_sync(stop=rng.choice([4, 7, 10, 13, 16]))
            elif op == "end":
                self.continue_sync()
                self.release()
            elif op == "restart":
                self.release()
                self.restart()

    def edit(self):
        """Add or delete a file."""
        w, rng = self.w, self.rng
        files = [p for p, n in w.tree(1).items() if n["k"] in "fp"]
        if len(files) > 3 and rng.random() < 0.3:
            w.delete(1, rng.choice(sorted(files)))
        else:
            path = rng.choice(["", "d/", "d/e/"]) + rng.choice(w.comps)
            if not w.kind(1, path) and w.parent_ok(1, path):
                w.write(1, path)
        self.record("edit")

    def finish(self):
        """Let everything that has been counted arrive."""
        self.continue_sync()
        self.release()
        for _ in range(2):
            if self.launch:
                self.finish_launch()
            self.wake(MAIN)
            for who in sorted(self.daemon.state["sleepers"]):
                if who != MAIN:
                    self.wake(who)


def play(root, tag, rng, job):
    w = World(root, tag, rng, clients=1)
    starter = gen.Player(w, "plain")
    if "case" in job:
        w.write(1, "a")
        w.write(1, "d/b")
    else:
        starter.populate(1, rng.randrange(3, 8))
    config = {"StorageLimit": rng.choice(["100MB", "100MB", "12KiB"]),
              "SyncInterval": rng.choice(["1", "5", "20"]),
              "PriorityHalfLife": rng.choice(["1", "2", "6", "120"]),
              "InflatePriority": rng.choice(["yes", "no"])}
    w.init(1, config)
    w.do("sync", 1)
    player = Player(w, rng)
    player.advance(0.01)
    player.record("begin")
    try:
        player.start()
        if "case" in job:
            player.follow(job["case"])
        else:
            for _ in range(job.get("steps", 40)):
                player.step()
        player.finish()
    except Ended:
        pass
    finally:
        player.release()
        if player.sync is not None:
            player.sync.proceed()
            player.sync.result()
        if player.daemon is not None:
            player.daemon.kill()
    return {"trace": {"id": "daemon/%d" % job["n"], "ev": player.events,
                      "pool": player.pool},
            "story": w.story()}
