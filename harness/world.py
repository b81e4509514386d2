"""Run the real program in a scratch directory and record what it does.

A World is one installation: a shared remote directory and a number of clients
that each have a local directory and a profile.  It applies user actions to the
directories, runs commands of the program (each in a process of its own, as the
real program does), and records the abstract state before and after every
command in the form that the TLA+ specification works with.
"""
import ctypes
import gc
import glob
import hashlib
import json
import os
import random
import re
import shutil
import signal
import sqlite3
import stat
import sys
import threading
import time
import datetime

BLOCK = 4096
DAY = 86400
TEMP_PREFIX = ".zielen-tmp-"
CONFLICT_RE = re.compile(
    r"^(?P<stem>.*)_conflict-\d{8}-\d{6}(?:\(\d+\))?(?P<ext>\.[^.]*)?$", re.S)

# Names are chosen to be awkward: glob characters, spaces, non-ASCII
# characters, several dots, names that look like generated ones.
PLAIN = ["a.txt", "b.md", "c", "d", "e", "f.txt", "g", "h.c"]
NASTY = [
    "a.txt", "b", ".hidden", "na\u00efve.md", "[x]y.c", "-dash", "d.tar.gz",
    "tab\tname", "100%s", "quote'\"", "_conflict-x", "UPPER.TXT", "a b.txt",
    "~tilde", "name(1).txt", "name.txt", "\U0001f600", "{z}", "dir.d", "x*",
    "q?", "back\\slash", "ends.", "...", "$HOME", ";rm", "a", "aa", "A",
    "Trash", "config", "c\u0327", "\u00e7", "nul-", "zielen", "exclude",
    "new\nline", ".zielenrc", ".zielen-tmp", " lead", "trail ", "#hash",
    "a=b", "x_conflict-20200101-000000.txt", "a-", "a.d", "..x", ".zielen2"]


ZONES = ["UTC", "UTC", "JST-9", "XYZ+3:30", "EST5EDT,M1.1.0,M12.5.0", "ABC-12:45"]


class Times:
    """Turn timestamps into ranks once all of them are known."""
    def __init__(self):
        self.values = set()
        self.spans = []

    def add(self, value):
        self.values.add(value)
        return value

    def span(self, start, end):
        self.spans.append((start, end))

    def ranks(self):
        """Everything within one command is one moment."""
        points = {}
        for value in self.values:
            for start, end in self.spans:
                if start <= value <= end:
                    points[value] = start
                    break
            else:
                points[value] = value
        order = {
            x: i + 1 for i, x in enumerate(
                sorted(set(points.values()) | {s for s, e in self.spans}))}
        ranks = {value: order[point] for value, point in points.items()}
        for start, end in self.spans:
            ranks[start] = order[start]
        return ranks


def exclude_matches(text, root):
    """Get the paths in a directory that exclude patterns apply to."""
    found = set()
    for line in text.split("\n"):
        if re.match(r"\s*#", line):
            continue
        line = line.strip()
        if not line:
            continue
        line = line.lstrip("/") if line.startswith("/") else "**/" + line
        for hit in glob.glob(
                os.path.join(glob.escape(root), line), recursive=True):
            hit = os.path.relpath(hit, root)
            parts = hit.split(os.sep)
            if any(os.path.islink(os.path.join(root, *parts[:n]))
                   for n in range(1, len(parts))):
                continue
            full = os.path.join(root, hit)
            if hit != ".":
                found.add(hit)
            if os.path.isdir(full) and (hit == "." or not os.path.islink(full)):
                for base, dirs, files in os.walk(full):
                    for name in dirs + files:
                        found.add(os.path.relpath(
                            os.path.join(base, name), root))
    return found


def parse_limit(text):
    """Get the number of bytes that a StorageLimit means."""
    m = re.match(r"^(\d+)\s*([kmg])(b|ib)?$", text.lower())
    base = 1000 if m.group(3) == "b" else 1024
    return int(m.group(1)) * base ** (" kmg".index(m.group(2)))


# What is wrong with the arguments of an init command.
GOOD = {"name": "ok", "local": "ok", "remote": "ok", "config": "ok",
        "files": "ok"}


# What happens at the given call that changes a file, as in shim/fault.c.
OFF, COUNT, KILL, FAIL, STOP, STOPALL, FAILALL, SCHED = range(8)


def arm(mode, target=0, code=5):
    ctypes.CDLL(None).fault_arm(mode, ctypes.c_long(target), code)


def use_terminal():
    """Make the standard output a terminal."""
    leader, follower = os.openpty()
    os.dup2(follower, 1)

    def drain():
        while os.read(leader, 65536):
            pass
    threading.Thread(target=drain, daemon=True).start()
    sys.stdout = open(1, "w", closefd=False)


class World:
    def __init__(self, root, tag, rng, clients=1, nasty=True, ncomps=6):
        self.root = root
        self.tag = tag
        self.rng = rng
        self.clients = list(range(1, clients + 1))
        names = list(NASTY if nasty else PLAIN)
        if nasty:
            rng.shuffle(names)
        abstract = "abcdefgh"[:ncomps]
        self.comp = dict(zip(abstract, names))
        self.back = {v: k for k, v in self.comp.items()}
        self.comps = list(abstract)
        self.unknown = {}
        self.counts = {}
        self.times = Times()
        self.events = []
        self.pool = []
        self.pool_index = {}
        self.paths = set()
        self.content = {}
        self.next_id = 0
        self.kill = set()
        self.known = set()
        # Contents that must still be somewhere.
        self.live = set()
        self.live_at_first = []
        self.add = set()
        self.seen = {c: {} for c in self.clients}
        self.log = []
        # How much of it there was after the last command.
        self.mark = 0
        self.config = {c: None for c in self.clients}
        self.patterns = {c: "" for c in self.clients}
        self.targets = {}
        self.remote = os.path.join(root, "r")
        os.makedirs(self.remote)
        # Whether each client is on a computer of its own, with a profile
        # that may have the same name as the others.
        self.apart = clients > 1 and rng.random() < 0.4
        self.namesakes = self.apart and rng.random() < 0.7
        self.zone = {c: rng.choice(ZONES) for c in self.clients}
        self.umask = {c: rng.choice([0o022, 0o022, 0o077, 0o027])
                      for c in self.clients}
        # Where each client sees the remote directory.
        self.mount = {c: self.remote for c in self.clients}
        form = rng.random()
        if form < 0.25:
            for c in self.clients:
                self.mount[c] = os.path.join(root, "m")
            os.symlink("r", os.path.join(root, "m"))
        elif form < 0.5 and clients > 1:
            for c in self.clients[1:]:
                self.mount[c] = os.path.join(root, "m%d" % c)
                os.symlink(self.remote, self.mount[c])
        for c in self.clients:
            os.makedirs(self.home(c), exist_ok=True)
            if rng.random() < 0.15:
                # The directory is somewhere else.
                os.makedirs(os.path.join(root, "there", "l%d" % c))
                os.symlink("../there/l%d" % c, self.local(c))
            else:
                os.makedirs(self.local(c))
            os.makedirs(self.cfg_home(c), exist_ok=True)
        if rng.random() < 0.2:
            # What has the name of a profile may also be the path of a
            # directory, which doesn't matter.
            os.symlink("h{0}/l{0}".format(clients), os.path.join(root, self.name(1)))
        self.last_error = None
        # The exclude patterns that clients sharing the remote directory have
        # made known to each other.
        self.published = {}
        self.ids = {}
        # Whether exclude patterns are recorded for the specification to
        # interpret.
        self.verbatim = False

    # Paths ------------------------------------------------------------------
    def local(self, c):
        return os.path.join(self.home(c), "l%d" % c)

    def home(self, c):
        """The directory that the local directory of a client is in."""
        return os.path.join(self.root, "h%d" % c)

    def dir(self, side):
        return self.local(side) if side else self.remote

    def seen_from(self, side):
        """Where the remote directory is, from the view of one side."""
        return self.mount[side or 1]

    @property
    def one_mount(self):
        return len(set(self.mount.values())) == 1

    def cfg_home(self, c):
        return os.path.join(
            self.root, "cfg%d" % c if self.apart and c > 1 else "cfg")

    def spelled(self, path):
        """Write a path in one of the ways that mean the same."""
        parent, base = os.path.split(path)
        roll = self.rng.randrange(8)
        if roll == 0:
            return path + "/"
        elif roll == 1:
            return parent + "//" + base
        elif roll == 2:
            return parent + "/./" + base + "//"
        elif roll == 3:
            return parent + "/x y/../" + base
        elif roll == 4 and path.startswith(self.root + "/"):
            return "~/" + os.path.relpath(path, self.root)
        return path

    def name(self, c):
        return "%sc%d" % (self.tag, 1 if self.namesakes else c)

    def profile_dir(self, c):
        return os.path.join(self.cfg_home(c), "zielen/profiles", self.name(c))

    def settle_in(self, c):
        """Set up the environment that the commands of a client run in."""
        os.environ["XDG_CONFIG_HOME"] = self.cfg_home(c)
        os.environ["HOME"] = self.root
        os.environ["TZ"] = self.zone[c]
        time.tzset()
        os.umask(self.umask[c])

    def concrete(self, path):
        return "/".join(self.comp[x] for x in path.split("/"))

    def full(self, side, path):
        return os.path.join(self.dir(side), self.concrete(path))

    def abstract_comp(self, name):
        if name in self.back:
            return self.back[name]
        m = CONFLICT_RE.match(name)
        if m:
            # The extension is whatever follows the last dot.
            original = m.group("stem") + (m.group("ext") or "")
            base = self.abstract_comp(original)
            if not base.startswith("?"):
                k = self.counts[base] = self.counts.get(base, 0) + 1
                new = "%s!%d" % (base, k)
                self.comp[new] = name
                self.back[name] = new
                return new
        new = "?%d" % (len(self.unknown) + 1)
        self.unknown[new] = name
        self.comp[new] = name
        self.back[name] = new
        return new

    def abstract(self, path):
        result = "/".join(self.abstract_comp(x) for x in path.split("/"))
        self.paths.add(result)
        return result

    # State ------------------------------------------------------------------
    def content_id(self, path):
        with open(path, "rb") as file:
            data = file.read()
        if not data:
            return "e0"
        key = hashlib.sha1(data).digest()
        return self.content.get(key) or "?" + key.hex()[:8]

    def node(self, side, full, rel):
        st = os.lstat(full)
        node = {"k": "f", "c": "", "m": 0, "b": st.st_blocks * 512, "o": 0,
                "u": False, "r": False}
        if stat.S_ISLNK(st.st_mode):
            target = os.readlink(full)
            if side and target == os.path.join(self.seen_from(side), rel):
                return {"k": "p", "c": "", "m": 0, "b": 0, "o": 0,
                        "u": False, "r": False}
            node["k"] = "l"
            node["c"] = self.target_id(target)
            node["m"] = self.times.add(st.st_mtime)
            node["r"] = (bool(side) or self.one_mount) and os.path.normpath(
                target).startswith(self.seen_from(side) + "/")
            node["u"] = target.startswith("/") or os.path.normpath(
                os.path.join("x", os.path.dirname(rel), target)
                ).split("/")[0] != "x"
        elif stat.S_ISDIR(st.st_mode):
            node["k"] = "d"
        else:
            node["m"] = self.times.add(st.st_mtime)
            node["o"] = stat.S_IMODE(st.st_mode)
            node["c"] = self.content_id(full)
        return node

    def target_id(self, target):
        return self.targets.setdefault(target, "t%d" % len(self.targets))

    def tree(self, side, root=None):
        top = root or self.dir(side)
        result = {}
        stack = [""]
        while stack:
            base = stack.pop()
            try:
                entries = list(os.scandir(os.path.join(top, base)))
            except FileNotFoundError:
                continue
            for entry in entries:
                rel = os.path.join(base, entry.name)
                if entry.name.startswith(TEMP_PREFIX):
                    continue
                if not side and root is None and rel == ".zielen":
                    continue
                result[self.abstract(rel)] = self.node(side, entry.path, rel)
                if entry.is_dir(follow_symlinks=False):
                    stack.append(rel)
        return result

    def rows(self, path, columns):
        if not os.path.isfile(path):
            return []
        # A transaction may be in progress or may have been interrupted, which
        # this must not interfere with.
        copy = os.path.join(self.root, "copy.db")
        try:
            for suffix in ("", "-journal", "-wal"):
                if os.path.exists(path + suffix):
                    shutil.copyfile(path + suffix, copy + suffix)
            conn = sqlite3.connect(copy, timeout=5)
            try:
                return conn.execute(
                    "SELECT path, %s FROM nodes" % columns).fetchall()
            except sqlite3.OperationalError as error:
                if "no such table" not in str(error):
                    raise
                return []
            finally:
                conn.close()
        finally:
            for suffix in ("", "-journal", "-wal", "-shm"):
                if os.path.exists(copy + suffix):
                    os.unlink(copy + suffix)

    def profile_rows(self, c):
        rows = self.rows(
            os.path.join(self.profile_dir(c), "local.db"),
            "directory, priority, local")
        return {self.abstract(path): {
            "d": bool(d), "p": int(round(p)), "l": bool(l)}
            for path, d, p, l in rows}

    def remote_rows(self):
        rows = self.rows(
            os.path.join(self.remote, ".zielen/remote.db"),
            "directory, lastsync")
        return {self.abstract(path): {"d": bool(d), "s": self.times.add(s)}
                for path, d, s in rows}

    def trash(self, now):
        """Get the entries in the trash by name."""
        top = os.path.join(self.remote, ".zielen/Trash")
        result = {}
        if not os.path.isdir(top):
            return result
        for entry in os.scandir(top):
            bases = set()
            if entry.name in self.back:
                bases.add(self.back[entry.name])
            m = re.match(r"^(.*)\(\d+\)(\.[^.]*)?$", entry.name, re.S)
            if m:
                name = m.group(1) + (m.group(2) or "")
                if name in self.back:
                    bases.add(self.back[name])
            tree = {".": self.trash_node(entry.path)}
            if entry.is_dir(follow_symlinks=False):
                for base, dirs, files in os.walk(entry.path):
                    for name in dirs + files:
                        full = os.path.join(base, name)
                        rel = os.path.relpath(full, entry.path)
                        rel = "/".join(
                            self.abstract_comp(x) for x in rel.split("/"))
                        tree[rel] = self.trash_node(full)
            age = int(now - entry.stat(follow_symlinks=False).st_mtime)
            result["n" + hashlib.sha1(
                os.fsencode(entry.name)).hexdigest()[:10]] = {
                "bases": sorted(bases), "tree": tree,
                "age": max(-1000, min(age, 2000000000)),
                # Whether the name is one that anything else doesn't have.
                "plain": entry.name in self.back}
        return result

    def trash_node(self, full):
        st = os.lstat(full)
        if stat.S_ISLNK(st.st_mode):
            return {"k": "l", "c": self.target_id(os.readlink(full))}
        elif stat.S_ISDIR(st.st_mode):
            return {"k": "d", "c": ""}
        return {"k": "f", "c": self.content_id(full)}

    def info(self, c):
        try:
            with open(os.path.join(self.profile_dir(c), "info.json")) as file:
                return json.load(file)
        except FileNotFoundError:
            return None
        except ValueError:
            return {"Status": "corrupt", "LastSync": None}

    def meta(self, c):
        info = self.info(c)
        config = self.config[c] or {}
        last = 0
        status = "none"
        if info is not None:
            status = info["Status"]
            if info.get("LastSync"):
                last = datetime.datetime.strptime(
                    info["LastSync"], "%Y-%m-%dT%H:%M:%S.%f").replace(
                        tzinfo=datetime.timezone.utc).timestamp()
                self.times.add(last)
        elif os.path.isdir(self.profile_dir(c)):
            status = "bare"
        return {
            "st": status, "last": last,
            "lim": parse_limit(config.get("StorageLimit", "0K")),
            "link": os.stat(self.local(c)).st_blksize
            if os.path.isdir(self.local(c)) else BLOCK,
            "trash": self.flag(config.get("UseTrash")),
            "infl": self.flag(config.get("InflatePriority")),
            "bysize": self.flag(config.get("AccountForSize")),
            "period": -1 if config.get("TrashCleanupPeriod", "30").startswith(
                "-") else int(config.get("TrashCleanupPeriod") or "30") * DAY}

    @staticmethod
    def flag(value):
        return not value or value.lower() in ("yes", "true")

    def patterns_of(self, c):
        path = os.path.join(self.profile_dir(c), "exclude")
        try:
            with open(path) as file:
                return file.read()
        except FileNotFoundError:
            return ""

    def intern(self, value):
        key = json.dumps(value, sort_keys=True)
        if key not in self.pool_index:
            self.pool_index[key] = len(self.pool) + 1
            self.pool.append(value)
        return self.pool_index[key]

    def snapshot(self):
        now = time.time()
        state = {
            "L": [self.tree(c) for c in self.clients],
            "R": self.tree(0),
            "K": [self.profile_rows(c) for c in self.clients],
            "D": self.remote_rows(),
            "X": self.trash(now),
            "M": [self.meta(c) for c in self.clients]}
        state["U"] = os.path.isdir(os.path.join(self.remote, ".zielen"))
        return state

    # Commands ---------------------------------------------------------------
    def run(self, kind, c, **options):
        """Run a command in a process of its own and wait for it."""
        pid, pipe = self.start(kind, c, **options)
        return self.finish(pid, pipe)

    def start(self, kind, c, fault=None, **options):
        rfd, wfd = os.pipe()
        pid = os.fork()
        if pid:
            os.close(wfd)
            return pid, rfd
        os.close(rfd)
        try:
            self.child(kind, c, fault, options, wfd)
        finally:
            os._exit(3)

    def child(self, kind, c, fault, options, wfd):
        import atexit
        os.setsid()
        null = os.open(os.devnull, os.O_RDWR)
        for fd in (0, 1, 2):
            os.dup2(null, fd)
        self.settle_in(c)
        if random.Random("%s/%s" % (len(self.events), c)).random() < 0.15:
            use_terminal()
        os.chdir(self.root)
        result = "ok"
        message = ""
        from zielen import cli, exceptions
        sys.argv = options.get("argv") or self.command_line(kind, c, options)
        if options.get("offset"):
            # The clock of a computer on which other things happen too.
            real, offset = time.time, options["offset"]
            time.time = lambda: real() + offset
        try:
            if fault:
                arm(*fault)
            if cli.main():
                result = "Error"
        except exceptions.ProgramError as error:
            result = type(error).__name__
            message = str(error)
        except BaseException as error:
            import traceback
            result = "EXC:" + type(error).__name__
            message = traceback.format_exc()[-1500:]
        try:
            atexit._run_exitfuncs()
        except BaseException as error:
            result = result if result != "ok" else "EXC:atexit"
        # Databases are closed when the interpreter ends.
        gc.collect()
        calls = 0
        if fault:
            calls = ctypes.CDLL(None).fault_count()
            arm(OFF)
        os.write(wfd, json.dumps([result, message, calls]).encode())
        os._exit(0)

    def command_line(self, kind, c, options):
        """Get the arguments with which the user would run a command."""
        rng = random.Random("%s %s" % (len(self.events), c))
        which = options.get("name", self.name(c))
        if options.get("by_path"):
            which = rng.choice([
                self.local(c), "h{0}/l{0}".format(c), "./h{0}/l{0}/".format(c),
                self.local(c) + "/",
                os.path.join(self.local(c), "..", "l%d" % c)])
        flags = []
        if kind == "reset":
            if options.get("keep"):
                flags.append([rng.choice(["-k", "--keep-remote"])])
            if options.get("bare"):
                flags.append([rng.choice(["-n", "--no-retrieve"])])
        elif kind == "init":
            if options.get("add"):
                flags.append([rng.choice(["-a", "--add-remote"])])
            if options.get("exclude"):
                flags.append([rng.choice(["-e", "--exclude"]),
                              options["exclude"]])
            if options.get("template"):
                flags.append([rng.choice(["-t", "--template"]),
                              options["template"]])
        rng.shuffle(flags)
        flags = [x for flag in flags for x in flag]
        name = {"empty": "empty-trash"}.get(kind, kind)
        args = ["zielen"]
        if rng.random() < 0.8:
            args.append("--debug")
        if rng.random() < 0.2:
            args.append(rng.choice(["-q", "--quiet"]))
        args.append(name)
        if rng.random() < 0.5:
            return args + flags + [which]
        return args + [which] + flags

    def finish(self, pid, rfd):
        _, status = os.waitpid(pid, 0)
        return self.collect(rfd, status)

    def collect(self, rfd, status):
        """Get the result of a command that has ended."""
        data = b""
        while True:
            part = os.read(rfd, 65536)
            if not part:
                break
            data += part
        os.close(rfd)
        if os.WIFSIGNALED(status):
            return "killed", ""
        if not data:
            return "EXC:exit", ""
        result, message, self.calls = json.loads(data.decode())
        return result, message

    def exclusions_of(self, kind, c, options):
        if kind == "init":
            own = set()
            if os.path.isfile(options.get("exclude") or ""):
                with open(options["exclude"]) as file:
                    own = exclude_matches(file.read(), self.local(c))
            return own, set()
        return self.exclusions(c)

    def pattern_lines(self, c):
        """Get the lines of the exclude files, as code points."""
        def lines(text):
            return [[ord(x) for x in line] for line in text.split("\n")]
        own = self.patterns_of(c)
        return {"own": lines(own), "all": [
            lines(text) for text in {**self.published, c: own}.values()]}

    def exclusions(self, c):
        """Get what this client and what every client excludes."""
        root = self.local(c)
        text = self.patterns_of(c)
        own = exclude_matches(text, root)
        shared = dict(self.published)
        shared[c] = text
        every = None
        for other in shared.values():
            hits = exclude_matches(other, root)
            every = hits if every is None else every & hits
        return own, (every or set())

    def do(self, kind, c, facts=None, **options):
        """Run a command and record it as an event of the trace."""
        own, every = self.exclusions_of(kind, c, options)
        pre = self.snapshot()
        text = self.patterns_of(c)
        lines = self.pattern_lines(c) if self.verbatim else None
        form = options.pop("away", None)
        if form:
            self.take_away(form)
        start = time.time()
        result, message = self.run(kind, c, **options)
        end = time.time()
        extra = {k: options[k] for k in ("orig", "held") if k in options}
        if lines:
            extra["pats"] = lines
        if form:
            extra.update(away=form, stand=self.bring_back(form))
            self.log.append(["away", form])
        self.settle_patterns(kind, c, text, result, form)
        if kind in ("init", "reset"):
            extra["facts"] = dict(GOOD, **(facts or {}))
        return self.record(
            kind, c, options, result, message, pre, start, end, own, every,
            extra)

    def take_away(self, form):
        """Make the remote directory unavailable.

        Something else may be in its place, like an empty mount point.
        """
        if form == "denied":
            os.chmod(self.remote, 0)
            return
        if form == "database":
            path = os.path.join(self.remote, ".zielen/remote.db")
            os.rename(path, os.path.join(self.root, "away.db"))
            return
        os.rename(self.remote, os.path.join(self.root, "away"))
        if form == "file":
            with open(self.remote, "w"):
                pass
        elif form in ("empty", "stray"):
            os.mkdir(self.remote)
        if form == "stray":
            # There may be files of the same names.
            for path in self.rng.sample(self.comps, 3):
                name = self.comp[path]
                if self.rng.random() < 0.4:
                    os.mkdir(os.path.join(self.remote, name))
                    name = os.path.join(name, "inner")
                with open(os.path.join(self.remote, name), "w") as file:
                    file.write("not a part of it")

    def bring_back(self, form):
        """Make the remote directory available again.

        Returns:
            Whether what was in its place has stayed as it was.
        """
        if form == "denied":
            os.chmod(self.remote, 0o755)
            return True
        if form == "database":
            path = os.path.join(self.remote, ".zielen/remote.db")
            same = not os.path.lexists(path)
            os.replace(os.path.join(self.root, "away.db"), path)
            return same
        found = [
            os.path.join(base, name) for base, dirs, files in os.walk(
                self.remote) for name in dirs + files]
        if form == "gone":
            same = not os.path.lexists(self.remote)
        elif form == "file":
            same = os.path.isfile(self.remote)
        elif form == "empty":
            same = os.path.isdir(self.remote) and not found
        else:
            same = all(os.path.isdir(x) and os.path.basename(x) != ".zielen"
                       or self.is_stray(x) for x in found)
            same = same and sum(os.path.isfile(x) for x in found) == 3
        if os.path.isdir(self.remote):
            shutil.rmtree(self.remote)
        elif form == "file":
            os.remove(self.remote)
        os.rename(os.path.join(self.root, "away"), self.remote)
        return same

    @staticmethod
    def is_stray(path):
        if os.path.islink(path) or not os.path.isfile(path):
            return False
        with open(path) as file:
            return file.read() == "not a part of it"

    def settle_patterns(self, kind, c, text, result, away=None):
        """Keep track of the exclude patterns that clients share."""
        if away:
            # Nothing in the remote directory has changed.
            if kind == "reset" and result == "ok":
                # Nobody changes this file any more.
                self.published[len(self.published) * 100] = (
                    self.published.pop(c))
            return
        if kind == "sync" and result in ("ok", "killed"):
            self.published[c] = text
        elif kind == "init" and result == "ok":
            self.published[c] = self.patterns_of(c)
            self.ids[c] = self.info(c)["ID"]
        elif kind == "reset":
            # This may have been interrupted.
            shared = os.path.join(
                self.remote, ".zielen/exclude", self.ids.get(c, "none"))
            if result == "ok" or not os.path.exists(shared):
                self.published.pop(c, None)
            if not os.path.isdir(os.path.join(self.remote, ".zielen")):
                self.published = {}

    def record(self, kind, c, options, result, message, pre, start, end, own,
               every, extra=None):
        # Nothing that the user does is at the same time as a command.
        post = self.snapshot()
        self.known.update(post["D"], *post["K"])
        if kind == "sync" and result == "ok":
            # What is excluded by all is decided at the end of a sync.
            every = self.exclusions(c)[1]
        self.times.span(start, end)
        names, bad = self.conflict_names(
            pre["L"][c - 1], pre["R"], post["L"][c - 1], post["R"])
        for base in bad:
            names[base] = "??"
        event = {
            "a": kind, "c": c, "res": result,
            "ex": sorted(self.abstract(p) for p in own),
            "exr": sorted(self.abstract(p) for p in every),
            "nn": names, "t": start, "kill": sorted(self.kill),
            "add": sorted(self.add - self.kill),
            # Whether nobody did anything since the last command.
            "idle": len(self.log) == self.mark,
            "keep": bool(options.get("keep")), "bare": bool(
                options.get("bare")), "addr": bool(options.get("add")),
            "pre": self.pack(pre), "post": self.pack(post)}
        event.update(extra or {})
        if message:
            event["msg"] = message
        present = {
            node["c"] for tree in post["L"] + [post["R"]]
            for node in tree.values() if node["k"] == "f"}
        for entry in post["X"].values():
            present.update(
                n["c"] for n in entry["tree"].values() if n["k"] == "f")
        self.live = ((self.live - self.kill) | self.add) & present
        self.kill = set()
        self.add = set()
        if result == "ok" and kind in ("sync", "init"):
            self.seen[c] = {
                path: node["c"] for path, node in post["R"].items()
                if node["k"] == "f"}
        self.events.append(event)
        self.log.append(["cmd", kind, c, {
            k: v for k, v in options.items() if k != "fault"}, result])
        self.mark = len(self.log)
        self.last_error = message
        return result

    @staticmethod
    def conflict_names(local, remote, local2, remote2):
        """Get the names that files were given in conflicts.

        A name is new, or it is one that another file had until now.
        """
        names = {}
        bad = set()
        for path in set(local2) | set(remote2):
            if "!" not in path.split("/")[-1]:
                continue
            base = path.rsplit("!", 1)[0]
            if path in local or path in remote:
                node = remote2.get(path, local2.get(path))
                if (node is None or node in (local.get(path), remote.get(path))
                        or node not in (local.get(base), remote.get(base))):
                    continue
            if base in names:
                bad.add(base)
            names[base] = path
        return names, bad

    def pack(self, state):
        return {
            "L": [self.intern(x) for x in state["L"]],
            "R": self.intern(state["R"]),
            "K": [self.intern(x) for x in state["K"]],
            "D": self.intern(state["D"]), "X": self.intern(state["X"]),
            "M": [self.intern(x) for x in state["M"]], "U": state["U"]}

    # Setting up -------------------------------------------------------------
    def write_template(self, c, config, path=None, local=None, remote=None):
        path = path or os.path.join(self.root, "template%d" % c)
        lines = ["# A template.\n"]
        for key in ("LocalDir", "RemoteDir", "StorageLimit", "SyncInterval",
                    "PriorityHalfLife", "UseTrash", "TrashCleanupPeriod",
                    "InflatePriority", "AccountForSize"):
            if key == "LocalDir":
                value = local or self.spelled(self.local(c))
            elif key == "RemoteDir":
                value = remote or self.spelled(self.mount[c])
            elif key in config:
                value = config[key]
            else:
                continue
            lines.append("%s=%s\n" % (key, value))
        with open(path, "w") as file:
            file.writelines(lines)
        return path

    def set_config(self, c, **values):
        """Edit the config file of a profile."""
        self.config[c] = dict(self.config[c] or {}, **values)
        self.log.append(["config", c, values])
        if os.path.isdir(self.profile_dir(c)):
            self.write_template(
                c, self.config[c], os.path.join(self.profile_dir(c), "config"))

    def set_patterns(self, c, text):
        self.log.append(["exclude", c, text])
        with open(os.path.join(self.profile_dir(c), "exclude"), "w") as file:
            file.write(text)

    def prepare(self, c, config=None, patterns=None, facts=None, **options):
        """Write the files that a profile is to be set up with."""
        before = self.config[c]
        if config is not None:
            self.config[c] = dict(config)
        if options.get("make"):
            os.makedirs(options.pop("make"), exist_ok=True)
        template = self.write_template(
            c, self.config[c] or {}, local=options.pop("local", None),
            remote=options.pop("remote", None))
        options.setdefault("template", template)
        if patterns is not None:
            options["exclude"] = os.path.join(self.root, "patterns%d" % c)
            with open(options["exclude"], "w") as file:
                file.write(patterns)
            self.log.append(["initial exclude", c, patterns])
        self.log.append(["initial config", c, self.config[c], facts])
        if facts is not None:
            self.config[c] = before
        return options

    def init(self, c, config=None, patterns=None, facts=None, **options):
        """Set up a profile."""
        options = self.prepare(c, config, patterns, facts, **options)
        return self.do("init", c, facts=facts, **options)

    def prioritize(self, c, path, amount):
        """Count accesses of a file, as the daemon does."""
        pid = os.fork()
        if not pid:
            try:
                self.settle_in(c)
                from zielen.profile import Profile
                profile = Profile(self.name(c))
                profile.read()
                profile.increment([self.concrete(path)], amount)
                profile.write()
            finally:
                os._exit(0)
        os.waitpid(pid, 0)
        self.log.append(["access", c, path, amount])

    def age_trash(self, days):
        """Make everything that is now in the trash older, and directories."""
        top = os.path.join(self.remote, ".zielen/Trash")
        for path in self.existing(0, "d"):
            if self.rng.random() < 0.5:
                then = time.time() - days * DAY
                os.utime(self.full(0, path), (then, then))
        for entry in os.scandir(top):
            if self.rng.random() < 0.5:
                st = entry.stat(follow_symlinks=False)
                t = st.st_mtime - days * DAY
                os.utime(entry.path, (t, t), follow_symlinks=False)
        self.log.append(["age trash", days])

    def clutter_trash(self, path, number):
        """Put a file in the trash whose name could be one of a clash."""
        top = os.path.join(self.remote, ".zielen/Trash")
        name, extension = os.path.splitext(
            os.path.basename(self.concrete(path)))
        full = os.path.join(
            top, "%s(%d)%s" % (name, number, extension) if number
            else name + extension)
        if not os.path.lexists(full):
            with open(full, "wb") as file:
                file.write(self.data(1)[1])
        self.log.append(["clutter trash", path, number])

    # User actions -----------------------------------------------------------
    def kind(self, side, path):
        full = self.full(side, path)
        if not os.path.lexists(full):
            return None
        if os.path.islink(full):
            target = os.readlink(full)
            if side and target == os.path.join(
                    self.seen_from(side), self.concrete(path)):
                return "p"
            return "l"
        return "d" if os.path.isdir(full) else "f"

    def contents_at(self, side, path):
        """Get the contents a user sees at a path and everything under it."""
        kind = self.kind(side, path)
        if kind == "f":
            return {self.content_id(self.full(side, path))}
        elif kind == "p" or kind == "l" and side:
            # A symlink that can't be synced stands for what is synced.
            seen = self.seen[side].get(path)
            return {seen} if seen else set()
        elif kind == "d":
            result = set()
            top = self.full(side, path)
            for name in os.listdir(top):
                if not name.startswith(TEMP_PREFIX):
                    result |= self.contents_at(
                        side, path + "/" + self.abstract_comp(name))
            return result
        return set()

    def parent_ok(self, side, path):
        """Whether a file can be made at a path."""
        parts = path.split("/")[:-1]
        for i in range(1, len(parts) + 1):
            kind = self.kind(side, "/".join(parts[:i]))
            if kind is not None and kind != "d":
                return False
        return True

    def data(self, blocks, size=None):
        self.next_id += 1
        ident = "c%d" % self.next_id
        data = (ident + ":").encode()
        size = max(len(data), size or blocks * BLOCK - self.rng.choice(
            [0, 0, 1, 20, self.rng.randrange(0, 900)]))
        data += (b"%s." % ident.encode()) * (size // (len(ident) + 1) + 1)
        data = data[:size]
        self.content[hashlib.sha1(data).digest()] = ident
        return ident, data

    def stamp(self, full):
        now = time.time()
        os.utime(full, (now, now), follow_symlinks=False)

    def write(self, side, path, blocks=1, through=False, mode=None, age=0,
              size=None):
        """Write new contents to a file, replacing what is there.

        If a size in bytes is given, it's used instead of the number of blocks.
        If through is given, a placeholder is followed and the file in the
        remote directory is what is written. The age of the file is only given
        to one that has never been there.
        """
        full = self.full(side, path)
        kind = self.kind(side, path)
        os.makedirs(os.path.dirname(full), exist_ok=True)
        if kind == "p" and through:
            if not os.path.isfile(full):
                return False
            self.kill.add(self.content_id(full))
            full = os.path.join(self.remote, self.concrete(path))
        elif kind is not None:
            self.kill |= self.contents_at(side, path)
            if kind == "f" and blocks and self.rng.random() < 0.4:
                # The size may be the same as before.
                size = size or os.path.getsize(full)
        ident, data = ("e0", b"") if blocks == 0 else self.data(
            blocks, size)
        temp = os.path.join(self.root, "new-file")
        if os.path.exists(temp):
            os.remove(temp)
        with open(temp, "wb") as file:
            file.write(data)
        os.chmod(temp, mode or 0o644)
        if through or (kind == "f" and self.rng.random() < 0.5):
            try:
                with open(full, "wb") as file:
                    file.write(data)
                if mode:
                    os.chmod(full, mode)
            except PermissionError:
                os.replace(temp, full)
        else:
            os.replace(temp, full)
        self.stamp(full)
        if age and kind is None and path not in self.known:
            then = time.time() - age
            os.utime(full, (then, then))
        if ident != "e0":
            self.add.add(ident)
        self.log.append(["write", side, path, ident, blocks, through])
        return True

    def delete(self, side, path):
        full = self.full(side, path)
        kind = self.kind(side, path)
        self.kill |= self.contents_at(side, path)
        if kind == "d":
            import shutil
            shutil.rmtree(full)
        else:
            os.remove(full)
        self.log.append(["delete", side, path])

    def mkdir(self, side, path):
        os.makedirs(self.full(side, path), exist_ok=True)
        self.log.append(["mkdir", side, path])

    def symlink(self, side, path, target):
        full = self.full(side, path)
        os.makedirs(os.path.dirname(full), exist_ok=True)
        if os.path.lexists(full):
            self.kill |= self.contents_at(side, path)
            os.remove(full)
        os.symlink(target, full)
        self.stamp(full)
        self.log.append(["symlink", side, path, target])

    def rename(self, side, path, new):
        """Move a file or directory to an unused path."""
        # What is moved can't be followed back to where it came from.
        self.kill |= self.contents_of_links(side, path)
        full = self.full(side, new)
        os.makedirs(os.path.dirname(full), exist_ok=True)
        os.rename(self.full(side, path), full)
        # Putting an old file in the place of one that has been synced looks
        # like not having changed it.
        for base, dirs, files in os.walk(full):
            for name in files:
                if self.was_known(os.path.join(base, name), side):
                    self.stamp(os.path.join(base, name))
        if not os.path.isdir(full) and self.was_known(full, side):
            self.stamp(full)
        self.log.append(["rename", side, path, new])

    def was_known(self, full, side):
        return self.abstract(
            os.path.relpath(full, self.dir(side))) in self.known

    def contents_of_links(self, side, path):
        kind = self.kind(side, path)
        if kind in ("p", "l"):
            return self.contents_at(side, path)
        elif kind == "d":
            result = set()
            for name in os.listdir(self.full(side, path)):
                if not name.startswith(TEMP_PREFIX):
                    result |= self.contents_of_links(
                        side, path + "/" + self.abstract_comp(name))
            return result
        return set()

    def touch(self, side, path, mode=None):
        full = self.full(side, path)
        if mode is not None:
            os.chmod(full, mode)
        self.stamp(full)
        self.log.append(["touch", side, path, mode])

    def existing(self, side, kinds="fdlp"):
        """Get the existing paths of some kinds on one side."""
        result = []
        top = self.dir(side)
        stack = [""]
        while stack:
            base = stack.pop()
            for entry in sorted(
                    os.scandir(os.path.join(top, base)), key=lambda x: x.name):
                rel = os.path.join(base, entry.name)
                if (entry.name.startswith(TEMP_PREFIX)
                        or not side and rel == ".zielen"):
                    continue
                path = self.abstract(rel)
                if self.kind(side, path) in kinds:
                    result.append(path)
                if entry.is_dir(follow_symlinks=False):
                    stack.append(rel)
        return sorted(result)

    # Output -----------------------------------------------------------------
    def trace(self, ident):
        """Get the trace in the form that TLC reads."""
        ranks = self.times.ranks()
        ranks[0] = 0

        def convert(value):
            if isinstance(value, dict):
                return {
                    k: (ranks[v] if k in ("m", "s", "last", "t")
                        and not isinstance(v, (dict, str)) else convert(v))
                    for k, v in value.items()}
            elif isinstance(value, list):
                return [convert(x) for x in value]
            return value

        paths = set(self.paths)
        for path in list(paths):
            parts = path.split("/")
            for i in range(1, len(parts)):
                paths.add("/".join(parts[:i]))
        for event in self.events:
            paths.update(event["nn"].keys())
        par, anc, desc = {}, {}, {}
        for path in paths:
            parts = path.split("/")
            par[path] = "/".join(parts[:-1])
            anc[path] = ["/".join(parts[:i]) for i in range(1, len(parts))]
            desc[path] = {
                q: (q[len(path) + 1:] or ".") for q in paths
                if q == path or q.startswith(path + "/")}
        order = {
            p: i for i, p in enumerate(
                sorted(paths, key=lambda p: self.concrete_or(p)))}
        names = {p: [[ord(x) for x in name] for name in
                     self.concrete_or(p).split("/")]
                 for p in paths} if self.verbatim else {}
        return {
            "id": ident, "name": names,
            "T": {"par": par, "anc": anc, "desc": desc,
                  "base": {p: p.split("/")[-1] for p in paths}},
            "rank": order, "live": self.live_at_first, "n": len(self.clients),
            "pool": [convert(x) for x in self.pool],
            "ev": [convert({k: v for k, v in e.items() if k != "msg"})
                   for e in self.events]}

    def concrete_or(self, path):
        return "/".join(self.comp.get(x, "\U0010ffff" + x)
                        for x in path.split("/"))

    def story(self):
        """Get a readable account of the trace."""
        return {"names": self.comp, "log": self.log,
                "errors": [e.get("msg") for e in self.events if e.get("msg")]}
