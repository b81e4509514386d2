"""Run the real daemon with a clock, events and subprocesses of ours.

Usage: watched.py SRC PROFILE START.  This reads requests from the standard input and
writes answers to the standard output, as JSON on a line each. The threads of
the daemon only run when they're woken, one at a time.
"""
import ctypes
import json
import os
import sqlite3
import subprocess
import sys
import threading
import time
import traceback
import types

real_sleep = time.sleep
real_time = time.time


class Stage:
    """Keep the threads of the daemon where we want them."""
    def __init__(self):
        self.cond = threading.Condition()
        self.now = real_time()
        self.sleepers = {}
        self.launches = {}
        self.names = {}
        self.log = []
        self.wm = None
        self.notifiers = []
        self.dead = None

    def name(self):
        """Name the current thread: the first one is the main thread."""
        ident = threading.get_ident()
        if threading.current_thread() is threading.main_thread():
            return "main"
        with self.cond:
            return self.names.setdefault(ident, "t%d" % (len(self.names) + 1))

    def sleep(self, duration):
        if threading.current_thread() is control:
            return real_sleep(duration)
        name = self.name()
        with self.cond:
            self.sleepers[name] = self.now + max(0, duration)
            self.cond.notify_all()
            while name in self.sleepers:
                self.cond.wait()

    def launch(self, args):
        name = self.name()
        job = {"args": args, "name": name, "done": False, "blocked": False}
        with self.cond:
            self.launches[name] = job
            self.log.append(["launch", name, args])
        return job

    def await_launch(self, job):
        with self.cond:
            job["blocked"] = True
            self.cond.notify_all()
            while not job["done"]:
                self.cond.wait()
            job["blocked"] = False

    def idle(self):
        """Whether every thread of the daemon waits for something."""
        alive = [t for t in threading.enumerate() if t is not control]
        blocked = [j for j in self.launches.values()
                   if j["blocked"] and not j["done"]]
        return len(alive) <= len(self.sleepers) + len(blocked)

    def settle(self):
        end = real_time() + 60
        with self.cond:
            while not self.idle() and self.dead is None:
                if real_time() > end:
                    self.log.append(["stuck"])
                    return
                self.cond.wait(0.001)


stage = Stage()


class Output:
    """The output of a subprocess, which ends when that does."""
    def __init__(self, job):
        self.job = job

    def __iter__(self):
        stage.await_launch(self.job)
        return iter(["a line\n"])

    def read(self, *args):
        stage.await_launch(self.job)
        return ""

    readline = read

    def readlines(self):
        return list(self)

    def close(self):
        pass

    write = flush = lambda self, *args: None


class Popen:
    def __init__(self, args, *rest, **options):
        if not isinstance(args, (list, tuple)):
            import shlex
            args = shlex.split(args)
        self.args = args
        self.job = stage.launch([os.fspath(x) for x in args])
        self.stdin = self.stdout = self.stderr = Output(self.job)
        self.returncode = None
        self.pid = 0

    def wait(self, timeout=None):
        stage.await_launch(self.job)
        self.returncode = self.job["code"]
        return self.returncode

    def poll(self):
        if self.job["done"]:
            self.returncode = self.job["code"]
        return self.returncode

    def communicate(self, *args, **options):
        self.wait()
        return "", "a line\n"

    def __enter__(self):
        return self

    def __exit__(self, *args):
        self.wait()

    kill = terminate = send_signal = lambda self, *args: None


class WatchManager:
    def __init__(self, *args, **options):
        self.watches = []
        stage.wm = self

    def add_watch(self, path, mask, proc_fun=None, rec=False, auto_add=False,
                  *args, **options):
        for one in path if isinstance(path, list) else [path]:
            self.watches.append((one, mask, proc_fun, rec, auto_add))
        return {path if isinstance(path, str) else "": 1}


class Notifier:
    def __init__(self, watch_manager, default_proc_fun=None, *args, **options):
        self.default = default_proc_fun
        self.daemon = False
        self.started = False

    def start(self):
        stage.notifiers.append(self)

    def stop(self):
        if self in stage.notifiers:
            stage.notifiers.remove(self)

    setDaemon = lambda self, value: None


class ProcessEvent:
    def __init__(self, pevent=None, **options):
        self.my_init(**options)

    def my_init(self, **options):
        pass

    def __call__(self, event):
        handler = getattr(self, "process_" + event.maskname, None) or getattr(
            self, "process_default", None)
        return handler(event)


MASKS = {"IN_ACCESS": 1, "IN_MODIFY": 2, "IN_ATTRIB": 4, "IN_CLOSE_WRITE": 8,
         "IN_CLOSE_NOWRITE": 16, "IN_OPEN": 32, "IN_MOVED_FROM": 64,
         "IN_MOVED_TO": 128, "IN_CREATE": 256, "IN_DELETE": 512,
         "ALL_EVENTS": 4095, "IN_ISDIR": 0x40000000}


def inotify(path, name, is_dir):
    """Tell whoever watches a path that something happened there."""
    if stage.wm is None:
        return
    for watch, mask, proc_fun, rec, auto_add in stage.wm.watches:
        parent = os.path.dirname(path)
        if not mask & MASKS[name]:
            continue
        if not (parent == watch or rec and auto_add
                and path.startswith(watch.rstrip("/") + "/")):
            continue
        event = types.SimpleNamespace(
            pathname=path, path=parent, name=os.path.basename(path),
            dir=is_dir, maskname=name, wd=1,
            mask=MASKS[name] | (MASKS["IN_ISDIR"] if is_dir else 0))
        for notifier in stage.notifiers:
            (proc_fun or notifier.default)(event)


def patch():
    time.sleep = stage.sleep
    time.time = lambda: stage.now
    subprocess.Popen = Popen
    connect = sqlite3.connect

    def quick(*args, **options):
        """Don't wait for as long as the real program."""
        options["timeout"] = 0.05
        # The threads take turns.
        return connect(*args[:1], **options)
    sqlite3.connect = sqlite3.dbapi2.connect = quick
    module = types.ModuleType("pyinotify")
    module.__dict__.update(
        MASKS, WatchManager=WatchManager, ThreadedNotifier=Notifier,
        Notifier=Notifier, ProcessEvent=ProcessEvent)
    sys.modules["pyinotify"] = module


def answer(out, **values):
    out.write(json.dumps(values) + "\n")
    out.flush()


def arm(mode, target=0, code=5):
    try:
        ctypes.CDLL(None).fault_arm(mode, ctypes.c_long(target), code)
    except AttributeError:
        pass


def serve(requests, out):
    stage.settle()
    while True:
        with stage.cond:
            log, stage.log = stage.log, []
            answer(out, now=stage.now, sleepers=stage.sleepers, log=log,
                   launches=[n for n, j in stage.launches.items()
                             if not j["done"]],
                   dead=stage.dead)
        line = requests.readline()
        if not line:
            os._exit(0)
        request = json.loads(line)
        op = request["op"]
        with stage.cond:
            stage.now = max(stage.now, request.get("at", 0))
        if op == "wake":
            if request.get("stop"):
                arm(4, request["stop"])
            with stage.cond:
                stage.sleepers.pop(request["who"], None)
                stage.cond.notify_all()
            stage.settle()
            arm(0)
        elif op == "event":
            inotify(request["path"], request["name"], request["dir"])
        elif op == "finish":
            with stage.cond:
                job = stage.launches[request["who"]]
                job["code"] = request["code"]
                job["done"] = True
                stage.cond.notify_all()
            stage.settle()


def main():
    global control
    src, profile, start = sys.argv[1:4]
    stage.now = float(start)
    requests = os.fdopen(os.dup(0), "r")
    out = os.fdopen(os.dup(1), "w")
    null = os.open(os.devnull, os.O_RDWR)
    os.dup2(null, 0)
    os.dup2(null, 1)
    sys.dont_write_bytecode = True
    import warnings
    warnings.filterwarnings("ignore")
    sys.path.insert(0, src)
    control = threading.Thread(target=serve, args=(requests, out), daemon=True)
    patch()
    control.start()
    try:
        from zielen import cli
        cli.daemon(profile)
        error = "ended"
    except BaseException:
        error = traceback.format_exc()
    with stage.cond:
        stage.dead = error
        stage.cond.notify_all()
    control.join()


control = None
if __name__ == "__main__":
    main()
