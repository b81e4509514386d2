"""Play what is excluded by exclude patterns."""
import random

import world as W

#: The names of files in the tree that ZielenGlobMC is about.
NAMES = dict(zip("abcdefghij", [
    "a", "b", "*", "-", ".a", ".b", "ab", "[a]", "ba", "?"]))

FILES = ["b", "c", "d", "f", "g", "h", "a/a", "a/e", "a/g", "a/b/a", "a/b/b",
         "e/a", "e/b", "i/f", "i/j"]

#: How many patterns are tried in one history.
CHUNK = 25


def sample(cases, count, seed):
    """Choose patterns.

    These are all short ones, and then as many that exclude something as ones
    that don't.
    """
    rng = random.Random("globs %s" % seed)
    short, some, others = [], [], []
    for excluded, line in cases:
        if len(line) <= 2:
            short.append(line)
        elif 0 < excluded < len(FILES):
            some.append(line)
        else:
            others.append(line)
    rng.shuffle(some)
    rng.shuffle(others)
    rest = max(0, count - len(short))
    # Those with brackets are many.
    some.sort(key=lambda x: (91 in x) == (rng.random() < 0.7))
    chosen = short + some[:rest * 3 // 4]
    chosen += others[:max(0, count - len(chosen))]
    rng.shuffle(chosen)
    return chosen


def jobs(cases, count, seed):
    lines = sample(cases, count, seed)
    return [{"kind": "glob", "n": n, "seed": seed,
             "lines": lines[n * CHUNK:(n + 1) * CHUNK]}
            for n in range((len(lines) + CHUNK - 1) // CHUNK)]


def play(root, tag, rng, job):
    w = W.World(root, tag, rng, clients=1, nasty=False)
    w.comp = dict(NAMES)
    w.back = {v: k for k, v in NAMES.items()}
    w.comps = list(NAMES)
    w.verbatim = True
    for path in FILES:
        w.write(1, path, size=10)
    w.init(1, {"StorageLimit": "1000KiB"})
    for line in job["lines"]:
        w.set_patterns(1, "".join(chr(x) for x in line)
                       + rng.choice(["\n", ""]))
        w.do("sync", 1)
    return w
