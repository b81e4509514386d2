"""Run the program in a scratch directory as an unprivileged user.

Usage: with lab() as l: a = l.client("a"); ...
"""
import contextlib
import json
import os
import shutil
import sqlite3
import subprocess
import sys
import tempfile
import time
import types
import warnings

NOBODY = 65534
DAY = 86400


class Client:
    def __init__(self, lab, name):
        # Locks are global, so the name must be unique.
        self.lab, self.name = lab, "%s-%d" % (name, os.getppid())
        name = self.name
        self.local = os.path.join(lab.top, "local-" + name)
        self.profile = os.path.join(lab.cfg, "zielen/profiles", name)

    def path(self, rel):
        return os.path.join(self.local, rel)

    def template(self, limit="100MiB", **options):
        values = dict({
            "LocalDir": self.local, "RemoteDir": self.lab.remote,
            "StorageLimit": limit, "SyncInterval": "20",
            "PriorityHalfLife": "120", "UseTrash": "yes",
            "TrashCleanupPeriod": "30", "InflatePriority": "yes",
            "AccountForSize": "no"}, **options)
        path = os.path.join(self.lab.top, "template-" + self.name)
        with open(path, "w") as file:
            for key, value in values.items():
                file.write("%s=%s\n" % (key, value))
        return path

    def init(self, patterns=None, limit="100MiB", add=False, **options):
        args = ["init", "-t", self.template(limit, **options)]
        if patterns is not None:
            path = os.path.join(self.lab.top, "patterns-" + self.name)
            with open(path, "w") as file:
                file.write(patterns)
            args += ["-e", path]
        if add:
            args.append("--add-remote")
        return self.lab.run(*args, self.name)

    def sync(self):
        return self.lab.run("sync", self.name)

    def config(self, **options):
        path = os.path.join(self.profile, "config")
        with open(path) as file:
            lines = file.read().split("\n")
        with open(path, "w") as file:
            for line in lines:
                key = line.partition("=")[0]
                if key in options:
                    line = "%s=%s" % (key, options[key])
                file.write(line + "\n")

    def patterns(self, text):
        with open(os.path.join(self.profile, "exclude"), "w") as file:
            file.write(text)

    def rows(self):
        with contextlib.closing(sqlite3.connect(
                os.path.join(self.profile, "local.db"))) as db:
            return {x[0]: x[1:] for x in db.execute(
                "SELECT path, directory, priority, local FROM nodes")}

    def prioritize(self, rel, amount):
        """Account for accesses the way the daemon does."""
        def do():
            from zielen.profile import Profile
            profile = Profile(self.name)
            profile.increment([rel], amount)
            profile.read()
            profile.write()
        assert self.lab.fork(do) == 0

    def is_placeholder(self, rel):
        return os.path.islink(self.path(rel))


class Lab:
    def __init__(self, top):
        self.top = top
        self.cfg = os.path.join(top, "cfg")
        self.remote = os.path.join(top, "remote")
        os.environ["HOME"] = os.path.join(top, "home")
        os.environ["XDG_CONFIG_HOME"] = self.cfg
        self.output = ""

    def client(self, name):
        c = Client(self, name)
        os.makedirs(c.local)
        return c

    def fork(self, function):
        pid = os.fork()
        if not pid:
            code = 120
            try:
                code = function() or 0
            except BaseException as e:
                import traceback
                traceback.print_exc()
            finally:
                sys.stdout.flush()
                sys.stderr.flush()
                os._exit(code)
        return os.waitstatus_to_exitcode(os.waitpid(pid, 0)[1])

    def run(self, *args):
        """Run a command of the program and return its exit status."""
        log = os.path.join(self.top, "log")

        def do():
            fd = os.open(log, os.O_WRONLY | os.O_CREAT | os.O_TRUNC, 0o600)
            os.dup2(fd, 1)
            os.dup2(fd, 2)
            import atexit
            from zielen import cli
            sys.argv = ["zielen", *args]
            try:
                code = cli.main() or 0
            except SystemExit as e:
                code = e.code if isinstance(e.code, int) else 1
            atexit._run_exitfuncs()
            return code
        code = self.fork(do)
        with open(log) as file:
            self.output = file.read()
        return code


def put(path, text, age=None):
    os.makedirs(os.path.dirname(path), exist_ok=True)
    with open(path, "w") as file:
        file.write(text)
    if age is not None:
        stamp = time.time() - age
        os.utime(path, (stamp, stamp))


def get(path):
    try:
        with open(path) as file:
            return file.read()
    except OSError:
        return None


def tree(path):
    """Get all paths below a directory, with the contents of files."""
    found = {}
    for base, dirs, files in os.walk(path):
        if base == path and ".zielen" in dirs:
            dirs.remove(".zielen")
        for name in dirs + files:
            full = os.path.join(base, name)
            rel = os.path.relpath(full, path)
            if os.path.islink(full):
                found[rel] = "-> " + os.readlink(full)
            elif os.path.isdir(full):
                found[rel] = None
            else:
                found[rel] = get(full)
    return found


def main(demo):
    """Run a demonstration; fail if it raises an exception."""
    top = tempfile.mkdtemp(prefix="zdemo-", dir="/tmp")
    try:
        shutil.copytree(
            os.path.join(os.getcwd(), "zielen"),
            os.path.join(top, "src", "zielen"),
            ignore=shutil.ignore_patterns("__pycache__"))
        info = os.path.join(top, "src", "zielen-0.1.dist-info")
        os.makedirs(info)
        with open(os.path.join(info, "METADATA"), "w") as file:
            file.write("Metadata-Version: 2.1\nName: zielen\nVersion: 0.1\n")
        subprocess.run(["chmod", "-R", "a+rX", top], check=True)
        work = os.path.join(top, "work")
        os.makedirs(work)
        os.chown(work, NOBODY, NOBODY)
        pid = os.fork()
        if not pid:
            code = 1
            try:
                os.chdir(work)
                os.setgroups([])
                os.setgid(NOBODY)
                os.setuid(NOBODY)
                sys.dont_write_bytecode = True
                warnings.filterwarnings("ignore")
                sys.path.insert(0, os.path.join(top, "src"))
                sys.modules["pyinotify"] = types.ModuleType("pyinotify")
                import zielen.cli
                demo(Lab(work))
                code = 0
            except BaseException:
                import traceback
                traceback.print_exc()
            finally:
                os._exit(code)
        code = os.waitstatus_to_exitcode(os.waitpid(pid, 0)[1])
    finally:
        subprocess.run(["chmod", "-R", "u+rwx", top], check=False)
        shutil.rmtree(top, ignore_errors=True)
    sys.exit(1 if code else 0)
