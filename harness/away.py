"""Histories in which the remote directory isn't always available."""
import gen

FORMS = ["gone", "empty", "stray", "file", "denied", "database"]


def attempt(w, rng, c, kind):
    """Run a command while the remote directory isn't available."""
    form = rng.choice(FORMS)
    if kind == "empty" and form == "database":
        # This has nothing to do with the trash.
        form = "gone"
    if kind == "reset":
        w.do("reset", c, away=form, keep=rng.random() < 0.5)
    else:
        w.do(kind, c, away=form, by_path=rng.random() < 0.1)


def give_up(w, rng, c):
    """Take a profile apart without the remote directory."""
    if w.do("reset", c, away=rng.choice(FORMS[:4]),
            keep=rng.random() < 0.5, bare=True) == "ok":
        w.seen[c] = {}


def play(root, tag, rng, kind, steps):
    w, player = gen.begin(root, tag, rng, kind.partition("-")[2])
    for _ in range(steps):
        for _ in range(rng.choice([0, 1, 2, 3, 4])):
            player.act()
        c = rng.choice(player.sides)
        for _ in range(rng.choice([1, 1, 2])):
            if w.meta(c)["st"] == "initialized":
                if rng.random() < 0.04:
                    give_up(w, rng, c)
                else:
                    attempt(w, rng, c, rng.choice(
                        ["sync", "sync", "sync", "empty", "reset"]))
            if w.meta(c)["st"] != "initialized":
                break
            if rng.random() < 0.3:
                player.act()
        if w.meta(c)["st"] != "initialized":
            player.sides.remove(c)
            if not player.sides:
                break
            c = rng.choice(player.sides)
        w.do("sync", c)
    return w
