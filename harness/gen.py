"""Random histories of user actions and commands."""
import glob
import os

from world import World, BLOCK, DAY

MODES = [0o644, 0o600, 0o755, 0o444, 0o640, 0o4711, 0o666]

#: How often each user action is chosen, by kind of history.
BASE = {
    "write": 10, "new": 8, "delete": 6, "mkdir": 3, "symlink": 2, "rename": 2,
    "touch": 2, "through": 3, "retype": 2, "config": 1, "exclude": 0,
    "access": 2, "age": 0, "both": 6, "delmod": 4, "remote": 3,
    "clutter": 0}

KINDS = {
    # kind: (weights, options)
    "general": (dict(BASE, exclude=1, age=1), {}),
    "plain": (dict(BASE), {"patterns": 0}),
    "conflict": (dict(BASE, both=25, write=12, remote=8), {"patterns": 0.1}),
    "deletion": (dict(BASE, delete=25, delmod=15, rename=4, retype=4), {}),
    "trash": (dict(BASE, delete=30, age=8, config=3, clutter=4), {
        "patterns": 0, "small": True, "empty": 2, "deep": True}),
    "exclude": (dict(BASE, exclude=12, both=8), {"patterns": 0.8}),
    "limit": (dict(BASE, access=10, config=4, new=15, through=4), {
        "patterns": 0.2, "tight": True, "few_deletes": True}),
    "symlinks": (dict(BASE, symlink=25, retype=4), {"patterns": 0}),
    "patterns": (dict(BASE, exclude=25), {
        "patterns": 1, "rich": True}),
    "types": (dict(BASE, retype=30, both=10), {"patterns": 0.2}),
    "many": (dict(BASE, exclude=1), {"clients": 3, "quiet": True}),
}


def limit_text(rng, blocks):
    """Write a number of blocks as a StorageLimit."""
    kib = blocks * BLOCK // 1024
    form = rng.randrange(5)
    if form == 0:
        return "%dKiB" % kib
    elif form == 1:
        return "%dk" % kib
    elif form == 2:
        return "%d KIB" % kib
    elif form == 3:
        # Decimal units.
        return "%dKB" % (kib * 1024 // 1000)
    return "%dK" % kib


def random_config(rng, opts):
    if opts.get("tight"):
        blocks = rng.randrange(2, 26)
    elif rng.random() < 0.5:
        blocks = rng.randrange(6, 50)
    else:
        blocks = rng.choice([1, 1000, 4, 100])
    config = {"StorageLimit": limit_text(rng, blocks)}
    if opts.get("small"):
        config["StorageLimit"] = limit_text(rng, rng.randrange(2, 14))
    for key, p in (
            ("UseTrash", 0.25), ("InflatePriority", 0.4),
            ("AccountForSize", 0.4)):
        if rng.random() < p:
            config[key] = rng.choice(["no", "No", "false", "FALSE"])
        elif rng.random() < 0.3:
            config[key] = rng.choice(["yes", "True", ""])
    if rng.random() < 0.3:
        config["TrashCleanupPeriod"] = rng.choice(
            ["30", "0", "-1", "-0", "7", "1"])
    return config


def random_universe(rng, comps, deep=False):
    """Choose the paths that a history is about."""
    a, b, c, d, e = comps[:5]
    paths = {a, b, c, d + "/" + a, d + "/" + b, d + "/" + e + "/" + a,
             d + "/" + e + "/" + c, e + "/" + a, e + "/" + d + "/" + b, d,
             e, d + "/" + e}
    if deep:
        # Many files have the same name.
        paths = {a, d + "/" + a, d + "/" + e + "/" + a, e + "/" + a,
                 e + "/" + d + "/" + a, b + "/" + a, b + "/" + d, d + "/" + b,
                 e + "/" + b}
    paths = sorted(paths)
    rng.shuffle(paths)
    return sorted(paths[:rng.randrange(5, 10)])


def random_patterns(rng, world, paths, links_ok=True):
    lines = []
    for _ in range(rng.randrange(1, 4)):
        path = rng.choice(paths)
        real = glob.escape(world.concrete(path))
        if "\n" in real:
            continue
        base = real.split("/")[-1]
        form = rng.randrange(12)
        if form <= 3:
            lines.append("/" + real)
        elif form <= 5:
            lines.append(base)
        elif form == 6:
            lines.append("/" + real + "/")
        elif form == 7:
            lines.append("/" + real + "/*")
        elif form == 8:
            lines.append("*.txt")
        elif form == 9:
            lines.append("  " + real + "  ")
        elif form == 10:
            lines.append("/" + real.split("/")[0] + "/**")
        else:
            lines.append("?" if rng.random() < 0.5 else "# " + real)
    if rng.random() < 0.3:
        lines.insert(0, "   # comment")
        lines.append("")
    return "\n".join(lines) + "\n"


def rich_name(rng, name):
    """Write a pattern that matches the name of a file, or nearly does."""
    out = ""
    for x in name:
        roll = rng.random()
        if roll < 0.12:
            out += "?"
        elif roll < 0.2:
            out += "*"
        elif roll < 0.26:
            out += "[%s]" % x
        elif roll < 0.32:
            out += "[%s%s]" % (rng.choice("aqz_"), x)
        elif roll < 0.36 and x.isalnum():
            out += "[%s-%s]" % (chr(ord(x) - rng.randrange(2)),
                                chr(ord(x) + rng.randrange(3)))
        elif roll < 0.4:
            out += "[!%s]" % rng.choice("x" + x)
        elif roll < 0.44:
            continue
        elif roll < 0.47:
            out += "*" + x
        else:
            out += "[%s]" % x if x in "*?[" else x
    if rng.random() < 0.15:
        out = out[:rng.randrange(len(out) + 1)].rstrip("[") + "*"
    return out.replace("**", "*")


def rich_patterns(rng, world, paths):
    """Use all of what patterns may consist of."""
    lines = []
    for _ in range(rng.randrange(1, 4)):
        real = world.concrete(rng.choice(paths))
        if "\n" in real:
            continue
        parts = [rich_name(rng, x) if rng.random() < 0.7 else
                 "".join("[%s]" % y if y in "*?[" else y for y in x)
                 for x in real.split("/")]
        roll = rng.random()
        if roll < 0.2:
            parts.insert(rng.randrange(len(parts) + 1), "**")
        elif roll < 0.3:
            parts[rng.randrange(len(parts))] = "**"
        elif roll < 0.4:
            parts = parts[rng.randrange(len(parts)):]
        if any(x in ("", ".", "..") for x in parts):
            continue
        line = "/".join(parts)
        if rng.random() < 0.5:
            line = "/" + line
        if rng.random() < 0.2:
            line += "/"
        if rng.random() < 0.1:
            line = rng.choice([" ", "\t", "  "]) + line
        if rng.random() < 0.1:
            line += rng.choice([" ", "\t", "  "])
        if rng.random() < 0.06:
            line = rng.choice(["#", " #", "# "]) + line
        lines.append(line)
    if rng.random() < 0.2:
        lines.insert(0, rng.choice(["", "#", "   ", "  # x"]))
    return "\n".join(lines) + rng.choice(["\n", "\n", "", "\n\n"])


class Player:
    """Act as the users of an installation."""
    def __init__(self, world, kind):
        self.w = world
        self.rng = world.rng
        self.weights, self.opts = KINDS[kind]
        self.paths = random_universe(
            self.rng, world.comps, self.opts.get("deep"))
        self.sides = list(world.clients)
        self.patterned = self.rng.random() < self.opts.get("patterns", 0.3)
        self.last = self.paths[0]
        self.blocks = 3 if self.opts.get("small") else 5

    def make_patterns(self):
        make = rich_patterns if self.opts.get("rich") else random_patterns
        return make(self.rng, self.w, self.paths)

    def size(self):
        return self.rng.choice([0] + [1] * 5 + list(range(1, self.blocks + 2)))

    def mode(self):
        return self.rng.choice(MODES) if self.rng.random() < 0.3 else None

    def side(self):
        if self.rng.random() * 20 < self.weights["remote"]:
            return 0
        return self.rng.choice(self.sides)

    def pick(self, side, kinds="fdlp"):
        found = self.w.existing(side, kinds)
        if not found:
            return None
        focus = [p for p in found if p in self.paths]
        if focus and self.rng.random() < 0.7:
            return self.rng.choice(focus)
        return self.rng.choice(found)

    def act(self):
        names = [k for k, v in self.weights.items() if k != "remote"]
        weights = [self.weights[k] for k in names]
        if self.opts.get("quiet"):
            weights = [
                w if k not in ("config", "age") else w / 4
                for k, w in zip(names, weights)]
        name = self.rng.choices(names, weights)[0]
        getattr(self, "act_" + name)()

    def act_write(self):
        side = self.side()
        path = self.pick(side, "fp")
        if path and self.rng.random() < 0.4:
            # The new contents have the size of the previous ones, and may come
            # soon after these.
            if self.w.kind(side, self.last) in ("f", "p"):
                path = self.last
            full = self.w.full(0 if self.w.kind(side, path) == "p" else side,
                               path)
            size = os.path.getsize(full) if os.path.isfile(full) else 0
            self.last = path
            if size > 16:
                self.w.write(side, path, size=size)
                return
        if path:
            self.w.write(side, path, self.size(), mode=self.mode())

    def act_new(self):
        side = self.side()
        path = self.rng.choice(self.paths)
        kind = self.w.kind(side, path)
        if kind in (None, "f", "p") and self.w.parent_ok(side, path):
            self.w.write(
                side, path, self.size(), mode=self.mode(), age=self.age())

    def age(self):
        """Choose how old a file is that appears."""
        if self.rng.random() < 0.6:
            return 0
        return self.rng.choice([
            3600.5, DAY, 29 * DAY, 31 * DAY, 400 * DAY + 0.123456, 6000 * DAY])

    def act_delete(self):
        side = self.side()
        path = self.pick(side, self.rng.choice(["fdlp", "p", "fl", "d"]))
        if path:
            self.w.delete(side, path)

    def act_mkdir(self):
        side = self.side()
        path = self.rng.choice(self.paths)
        if self.w.kind(side, path) is None and self.w.parent_ok(side, path):
            self.w.mkdir(side, path)

    def target(self, side, path):
        rng = self.rng
        depth = path.count("/")
        form = rng.randrange(9)
        if form <= 2 or self.patterned:
            # Dangling, but safe.
            return "none%d" % rng.randrange(4)
        elif form == 3:
            return "../" * depth + self.w.concrete(rng.choice(self.paths))
        elif form == 4:
            return "../" * (depth + 1) + "outside"
        elif form == 5:
            return "/nonexistent/%d" % rng.randrange(3)
        elif form == 6:
            # The names of these directories start in the same way.
            if rng.random() < 0.5:
                return "%s%sx/y" % (
                    "../" * (depth + 1), os.path.basename(self.w.dir(side)))
            return self.w.seen_from(side) + "-old/x"
        elif form == 7 and self.w.one_mount:
            return os.path.join(
                self.w.seen_from(side),
                self.w.concrete(rng.choice(self.paths)) + "x")
        elif not side and not self.w.one_mount:
            # It leads to the remote directory for some of the clients only.
            return "/nonexistent/x"
        # A link in the remote directory to itself looks like a placeholder.
        return os.path.join(
            self.w.dir(side), self.w.concrete(rng.choice(self.paths))
            + ("" if side else "y"))

    def act_symlink(self):
        side = self.side()
        path = self.rng.choice(self.paths)
        kind = self.w.kind(side, path)
        if kind in (None, "l", "f") and self.w.parent_ok(side, path):
            self.w.symlink(side, path, self.target(side, path))

    def act_rename(self):
        side = self.side()
        path = self.pick(side)
        new = self.rng.choice(self.paths)
        if (path and self.w.kind(side, new) is None
                and self.w.parent_ok(side, new)
                and not new.startswith(path + "/")):
            self.w.rename(side, path, new)

    def act_touch(self):
        side = self.side()
        path = self.pick(side, "f")
        if path:
            self.w.touch(side, path, self.mode())

    def act_through(self):
        side = self.rng.choice(self.sides)
        path = self.pick(side, "p")
        if path and self.w.kind(0, path) == "f":
            try:
                self.w.write(side, path, self.size(), through=True)
            except PermissionError:
                pass

    def act_retype(self):
        side = self.side()
        path = self.pick(side)
        if not path:
            return
        kind = self.w.kind(side, path)
        self.w.delete(side, path)
        if kind == "d":
            if self.rng.random() < 0.7:
                self.w.write(side, path, self.size())
            else:
                self.w.symlink(side, path, self.target(side, path))
        else:
            self.w.mkdir(side, path)
            if self.rng.random() < 0.7:
                sub = path + "/" + self.rng.choice(self.w.comps)
                self.w.write(side, sub, self.size())

    def act_both(self):
        """Change the same file on two sides."""
        sides = self.sides + [0]
        if len(sides) < 2:
            return
        one, two = self.rng.sample(sides, 2)
        path = self.rng.choice(self.paths)
        for side in (one, two):
            kind = self.w.kind(side, path)
            if kind in (None, "f", "p") and self.w.parent_ok(side, path):
                self.w.write(side, path, self.size())

    def act_delmod(self):
        """Delete a file on one side and change it on another."""
        sides = self.sides + [0]
        one, two = self.rng.sample(sides, 2)
        path = self.pick(one, "fpd")
        if not path:
            return
        kind = self.w.kind(two, path)
        if kind in ("f", "p"):
            self.w.write(two, path, self.size())
        elif kind == "d":
            sub = self.pick(two, "f")
            if sub and sub.startswith(path + "/"):
                self.w.write(two, sub, self.size())
        self.w.delete(one, path)

    def act_config(self):
        c = self.rng.choice(self.sides)
        self.w.set_config(c, **random_config(self.rng, self.opts))

    def act_exclude(self):
        c = self.rng.choice(self.sides)
        if self.patterned and self.rng.random() < 0.8:
            text = self.make_patterns()
            for other in self.sides:
                if other == c or self.rng.random() < 0.4:
                    self.w.set_patterns(other, text)
        elif self.rng.random() < 0.5:
            self.w.set_patterns(c, "# Nothing.\n")

    def act_access(self):
        c = self.rng.choice(self.sides)
        path = self.pick(c, "flp")
        if path:
            self.w.prioritize(c, path, self.rng.randrange(1, 6))

    def act_clutter(self):
        """Put files in the trash that have the names others would get."""
        w, rng = self.w, self.rng
        c = rng.choice(self.sides)
        path = self.pick(c, "p")
        if path is None or rng.random() < 0.3:
            w.clutter_trash(rng.choice(self.paths), rng.randrange(0, 4))
            return
        count = len(os.listdir(os.path.join(w.remote, ".zielen/Trash")))
        for number in sorted({0} | {
                rng.randrange(0, count + 4) for _ in range(rng.randrange(6))}):
            w.clutter_trash(path, number)
        w.delete(c, path)

    def act_age(self):
        self.w.age_trash(self.rng.choice([2, 8, 40, 400]))

    def populate(self, side, count):
        for _ in range(count):
            path = self.rng.choice(self.paths)
            if self.w.kind(side, path) is None and self.w.parent_ok(
                    side, path):
                roll = self.rng.random()
                if roll < 0.12:
                    self.w.mkdir(side, path)
                elif roll < 0.2:
                    self.w.symlink(side, path, self.target(side, path))
                else:
                    self.w.write(side, path, self.size(), mode=self.mode(),
                                 age=self.age())


def begin(root, tag, rng, kind):
    """Set up an installation."""
    weights, opts = KINDS[kind]
    clients = opts.get("clients") or rng.choice([1, 2, 2, 2])
    world = World(root, tag, rng, clients=clients, nasty=rng.random() < 0.7)
    player = Player(world, kind)
    config = {c: random_config(rng, opts) for c in world.clients}
    patterns = None
    if player.patterned and rng.random() < 0.5:
        patterns = player.make_patterns()
    world.verbatim = opts.get("rich", False)
    shared = rng.random() < 0.3
    player.populate(0 if shared else 1, rng.randrange(0, 9))
    for c in world.clients:
        world.init(c, config[c], patterns, add=shared or c > 1)
        if rng.random() < 0.5 and c < clients:
            world.do("sync", c)
    return world, player


def proceed(world, player, rng, steps):
    """Act and sync a number of times."""
    for _ in range(steps):
        for _ in range(rng.choice([0, 1, 1, 2, 3, 4, 6])):
            player.act()
        c = rng.choice(world.clients)
        if rng.random() * 20 < player.opts.get("empty", 0.3):
            world.do("empty", c)
        else:
            world.do("sync", c, by_path=rng.random() < 0.05)
        if rng.random() < 0.2:
            world.do("sync", c)


def play(root, tag, rng, kind, steps=8):
    """Play a whole history and get the world it happened in."""
    world, player = begin(root, tag, rng, kind)
    proceed(world, player, rng, steps)
    for _ in range(3 if rng.random() < 0.3 else 2):
        for c in world.clients:
            world.do("sync", c)
    return world
