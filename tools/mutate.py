#!/usr/bin/env python3
"""Show that the exploration of the specification isn't vacuous.

Each of these changes to the specification must make TLC find a behaviour
that doesn't have a property.

Usage: mutate.py [MODEL ...]
"""
import os
import re
import sys

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(HERE, "harness"))
import model
import tlc

# Model, old text, new text.
MUTATIONS = [
    ("merge", "keptL  == Unfamiliar(K, L) \\cup modL0 \\cup ex",
     "keptL  == Unfamiliar(K, L) \\cup ex"),
    ("merge", "delR   == Gone(K, L) \\ Up(keptR)",
     "delR   == Gone(K, L)"),
    ("merge", "delL   == Gone(K, R) \\ Up(keptL)",
     "delL   == Gone(K, R) \\ keptL"),
    ("merge", "older  == {p \\in both : L3[p].m < R3[p].m}",
     "older  == {p \\in both : L3[p].m > R3[p].m}"),
    ("race", "\\cup {p \\in Files(R) : p \\in DOMAIN D /\\ ~D[p].d /\\ D[p].s > last}",
     ""),
    ("merge", "clashR == clash \\ clashL", "clashR == {}"),
    ("merge", "lost   == Gone(K1, R1)", "lost   == {}"),
    ("alone", "newL   == {p \\in DOMAIN L3 : p \\notin DOMAIN K3 /\\ ~Unsafe(L3[p])}",
     "newL   == {p \\in DOMAIN L3 : p \\notin DOMAIN K3}"),
    ("trash", "{p \\in topR : ~K[p].l}", "{p \\in topR : K[p].l}"),
    ("exclude", "remEx \\cap exall \\cap DOMAIN D8", "remEx \\cap DOMAIN D8"),
    ("exclude", "\\ (ex \\ DOMAIN R3)", ""),
    ("limit", "space  == cfg.lim - excluded", "space  == cfg.lim + 4096"),
    ("limit", "acc.space - size[f] + link", "acc.space - size[f] + 2 * link"),
    ("life", "skip == Unsynced(L, K, cfg) \\cup UnderAll(Clashing(L, R))",
     "skip == UnderAll(Clashing(L, R))"),
    ("life", "\\/ Unsynced(L, K, cfg) \\cap RemoteChanged(R, K, D, cfg) # {}",
     "\\/ FALSE"),
    ("crash", "[L |-> L6, R |-> R7,  K |-> K, D |-> D8,  trashed |-> TRUE],",
     "[L |-> L6, R |-> R7,  K |-> K9, D |-> D8,  trashed |-> TRUE],"),
    ("crashrace", "[L |-> L8, R |-> R7,  K |-> K, D |-> D8,  trashed |-> TRUE],",
     "[L |-> L8, R |-> R7,  K |-> K, D |-> D,  trashed |-> TRUE],"),
    ("crash", "[L |-> L1, R |-> R1,  K |-> K, D |-> D,   trashed |-> TRUE],",
     "[L |-> L1, R |-> R1,  K |-> K, D |-> D,   trashed |-> FALSE],"),
]

# Options with which what is specified is wrong.
WRONG = [("lock", {"early": True})]


def main():
    failed = 0
    for name, options in WRONG:
        if sys.argv[1:] and name not in sys.argv[1:]:
            continue
        model.MODELS[name].update(options)
        try:
            model.explore(name, "quick")
            found = "NOTHING"
            failed += 1
        except tlc.Failed as error:
            found = str(error)[:100]
        print("%-8s %-60s %s" % (name, options, found), flush=True)
    with open(os.path.join(tlc.SPEC, "Zielen.tla")) as file:
        text = file.read()
    for name, old, new in MUTATIONS:
        if sys.argv[1:] and name not in sys.argv[1:]:
            continue
        assert text.count(old) == 1, old
        try:
            model.explore(name, "quick", files={
                "Zielen.tla": text.replace(old, new)})
            found = "NOTHING"
            failed += 1
        except tlc.Failed as error:
            said = str(error)
            found = " ".join(sorted({".".join(x) for x in re.findall(
                r'<<\s*"(P\w+)",\s*"(\w+)"', said)}))
        print("%-8s %-60s %s" % (name, old[:60], found or "error"), flush=True)
    return 1 if failed else 0


if __name__ == "__main__":
    sys.exit(main())
