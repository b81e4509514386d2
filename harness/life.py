"""Histories in which profiles are set up and taken apart."""
import os

import gen
from world import World


class Life(gen.Player):
    """Plays histories like those in gen, with more of a life around them."""

    def good_init(self, c):
        w = self.w
        for name in os.listdir(w.remote):
            add = True
            break
        else:
            add = self.rng.random() < 0.2
        local = os.listdir(w.local(c)) if os.path.isdir(w.local(c)) else []
        if add and local:
            return False
        config = gen.random_config(self.rng, self.opts)
        patterns = None
        if self.rng.random() < 0.4:
            patterns = gen.random_patterns(self.rng, w, self.paths)
        w.init(c, config, patterns, add=add)
        return True

    def bad_init(self, c):
        """Try to set up a profile in a way that must be refused."""
        w = self.w
        form = self.rng.randrange(12)
        facts = {}
        options = {"add": bool(os.listdir(w.remote))}
        config = gen.random_config(self.rng, self.opts)
        if form == 0:
            options["name"] = self.rng.choice(["a b", "x\ty", " ", "n\n"])
            facts["name"] = "blank"
        elif form == 1:
            options["name"] = self.rng.choice(
                ["a/b", "..", "a.b", "", "x*", "../" + w.name(c), "n'"])
            facts["name"] = "symbols"
        elif form == 2:
            facts["files"] = "template"
            options["template"] = os.path.join(w.root, "none")
        elif form == 3:
            facts["files"] = "exclude"
            options["exclude"] = os.path.join(w.root, "none")
        elif form == 4:
            facts["config"] = "bad"
            config[self.rng.choice([
                "StorageLimit", "UseTrash", "InflatePriority", "SyncInterval",
                "TrashCleanupPeriod", "PriorityHalfLife"])] = self.rng.choice(
                    ["x", "1.5", "maybe", "10 KiB?"])
        elif form == 5:
            # A profile of the same or another client is already there.
            others = [o for o in w.clients if o != c
                      and w.cfg_home(o) == w.cfg_home(c)
                      and w.meta(o)["st"] == "initialized"]
            if not others:
                return
            facts["local"] = "overlap"
            other = self.rng.choice(others)
            path = w.local(other)
            if self.rng.random() < 0.4:
                # The directory that it's in.
                path = w.home(other)
                if options["add"]:
                    options["add"] = False
                    options["remote"] = os.path.join(w.root, "r2")
            elif self.rng.random() < 0.5:
                path = os.path.join(path, "inner")
                options["make"] = path
            else:
                # Only a file in a directory keeps it from being used.
                if os.listdir(path):
                    facts["local"] = "full"
            options["local"] = path
        elif form == 6:
            facts["local"] = "program"
            options["local"] = self.rng.choice([
                w.cfg_home(c), os.path.join(w.cfg_home(c), "zielen"),
                w.root])
            options["add"] = False
            if os.listdir(w.remote):
                facts["remote"] = "full"
        elif form == 7:
            if options["add"]:
                facts["local"] = "full"
                if not os.path.isdir(w.local(c)) or not os.listdir(w.local(c)):
                    return
            else:
                facts["local"] = "missing"
                options["local"] = os.path.join(w.root, "nowhere")
        elif form == 8:
            if options["add"]:
                options["add"] = False
                facts["remote"] = "full"
            else:
                options["add"] = True
                options["remote"] = os.path.join(w.root, "nowhere")
                facts["remote"] = "missing"
                if os.listdir(w.local(c)):
                    facts["local"] = "full"
        elif form == 9:
            path = os.path.join(w.root, "afile")
            with open(path, "w"):
                pass
            options[self.rng.choice(["local", "remote"])] = path
            facts["local"] = "file"
        elif form == 10:
            # A directory that can't be written to.
            path = os.path.join(w.root, "locked")
            if not os.path.isdir(path):
                os.mkdir(path)
                os.chmod(path, 0o555)
            if self.rng.random() < 0.5:
                options["local"] = path
                if options["add"] and self.rng.random() < 0.5:
                    options["local"] = os.path.join(path, "inner")
                facts["local"] = "locked"
            else:
                options["remote"] = path
                if not options["add"] and self.rng.random() < 0.5:
                    options["remote"] = os.path.join(path, "inner")
                facts["remote"] = "locked"
        else:
            # Nothing is wrong, other than that it may exist already.
            if w.meta(c)["st"] != "initialized":
                return
        if options["add"] and w.meta(c)["st"] != "initialized":
            local = options.get("local") or w.local(c)
            if os.path.isdir(local) and os.listdir(local):
                facts.setdefault("local", "full")
        w.init(c, config, None, facts=facts, **options)

    def act_exclude(self):
        sides = self.sides
        self.sides = [
            c for c in sides if self.w.meta(c)["st"] == "initialized"]
        if self.sides:
            super().act_exclude()
        self.sides = sides

    def act_config(self):
        if all(self.w.meta(c)["st"] == "initialized" for c in self.sides):
            super().act_config()

    def act_access(self):
        if all(self.w.meta(c)["st"] == "initialized" for c in self.sides):
            super().act_access()

    def act_clutter(self):
        pass

    def act_age(self):
        if os.path.isdir(os.path.join(self.w.remote, ".zielen/Trash")):
            super().act_age()

    def step(self):
        w = self.w
        rng = self.rng
        c = rng.choice(w.clients)
        state = w.meta(c)["st"]
        roll = rng.random()
        if roll < 0.2:
            self.bad_init(c)
        elif state == "none":
            if not os.path.isdir(w.remote):
                os.mkdir(w.remote)
            self.good_init(c)
        elif roll < 0.4:
            keep, bare = rng.random() < 0.6, rng.random() < 0.3
            if w.do("reset", c, keep=keep, bare=bare) == "ok":
                w.seen[c] = {}
        elif roll < 0.5 and os.path.isdir(
                os.path.join(w.remote, ".zielen/Trash")):
            w.do("empty", c)
        elif os.path.isdir(os.path.join(w.remote, ".zielen")):
            w.do("sync", c)


def play(root, tag, rng, kind, steps=12):
    clients = rng.choice([1, 2, 2, 3])
    world = World(root, tag, rng, clients=clients, nasty=rng.random() < 0.7)
    player = Life(world, kind.partition("-")[2] or "general")
    shared = rng.random() < 0.4
    player.populate(0 if shared else 1, rng.randrange(0, 9))
    for _ in range(steps):
        # Only what has been synced can be told apart by its time.
        if rng.random() < 0.7:
            for _ in range(rng.choice([0, 1, 2, 3])):
                player.act()
        player.step()
    return world
