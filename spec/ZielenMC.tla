------------------------------ MODULE ZielenMC ------------------------------
(***************************************************************************)
(* An installation of zielen as a state machine: users of several clients   *)
(* edit files on every side, and each client runs its commands at any time. *)
(*                                                                          *)
(* TLC explores all behaviours up to a number of steps.  Every command is   *)
(* checked against every property in ZielenProps, so that the specification *)
(* of what commands do has the properties that the program is meant to      *)
(* have.  Each behaviour that leads to a situation in which no other has    *)
(* been is written out, and is then played with the real program, which is  *)
(* checked against the same specification (see ZielenTrace).                *)
(*                                                                          *)
(* The file named by the environment variable OPTIONS says how much of this *)
(* is explored.                                                             *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, IOUtils

Opt == JsonDeserialize(IOEnv.OPTIONS)
List(a) == {a[x] : x \in DOMAIN a}

Clients  == 1..Opt.clients
Sides    == 0..Opt.clients
Edits    == List(Opt.edits)      \* what users do
Commands == List(Opt.commands)
MaxSteps == Opt.steps
Limits   == List(Opt.limits)     \* in blocks
Trashing == List(Opt.trash)
Bases    == List(Opt.bases)      \* which initial contents
Block    == 4096

-----------------------------------------------------------------------------
(* The paths there are: three that users work with, and the names that files *)
(* get in conflicts.                                                         *)

Base  == {"a", "d", "d/b"}
Slots == {"1", "2"}
Copy(p, n) == p \o "~" \o n
Dir  == ("a" :> "") @@ ("d" :> "") @@ ("d/b" :> "d")
Copies == [x \in Base \X Slots |-> Copy(x[1], x[2])]
All  == Base \cup {Copies[x] : x \in DOMAIN Copies}
Original == [p \in All |-> IF p \in Base THEN p
                           ELSE (CHOOSE x \in DOMAIN Copies : Copies[x] = p)[1]]
ParOf == [p \in All |-> Dir[Original[p]]]
AncOf == [p \in All |-> IF ParOf[p] = "" THEN << >> ELSE <<ParOf[p]>>]
Names == ("a" :> "a") @@ ("d" :> "d") @@ ("d/b" :> "b")
NameOf == [p \in All |-> IF p \in Base THEN Names[p] ELSE
             LET x == CHOOSE y \in DOMAIN Copies : Copies[y] = p
             IN  Copy(Names[x[1]], x[2])]
Paths == [par  |-> ParOf,
          anc  |-> AncOf,
          desc |-> [p \in All |->
                      [q \in {r \in All : r = p \/ ParOf[r] = p} |->
                         IF q = p THEN "." ELSE NameOf[q]]],
          base |-> NameOf]
Order == <<"a", "a~1", "a~2", "d", "d/b", "d/b~1", "d/b~2", "d~1", "d~2">>
RankOf == [p \in All |-> CHOOSE n \in DOMAIN Order : Order[n] = p]

Z == INSTANCE ZielenProps WITH T <- Paths

-----------------------------------------------------------------------------
VARIABLES
    L,        \* the local tree of each client
    R,        \* the remote tree
    K,        \* the profile database of each client
    D,        \* the remote database
    X,        \* the trash: a sequence of what was put into it
    cfg,      \* the settings and the state of each client
    pat,      \* the paths that each client excludes
    pub,      \* those that the others know of
    up,       \* whether the remote directory is in use
    live,     \* the contents that no user has thrown away
    clock,
    hist      \* what has happened

vars == <<L, R, K, D, X, cfg, pat, pub, up, live, clock, hist>>

Nothing == << >>
File(c, m) == [k |-> "f", c |-> ToString(c), m |-> m, b |-> Block, o |-> 0, u |-> FALSE, r |-> FALSE]
Link(c, m, u) == [k |-> "l", c |-> ToString(c), m |-> m, b |-> 0, o |-> 0, u |-> u, r |-> FALSE]

\* The contents of a file are identified by the time at which it was written.
Tree(side) == IF side = 0 THEN R ELSE L[side]

\* The contents that are seen at a path, through a placeholder if there is one.
Seen(side, p) ==
    LET t == Tree(side)
        at(q) == IF t[q].k = "f" THEN {t[q].c}
                 ELSE IF t[q].k = "p" /\ q \in DOMAIN R /\ R[q].k = "f"
                 THEN {R[q].c} ELSE {}
    IN  UNION {at(q) : q \in Z!Under(p) \cap DOMAIN t}

Matched(t, P) == {p \in DOMAIN t : p \in P \/ Z!Anc(p) \cap P # {}}
Everyone == {c \in Clients : cfg[c].st = "initialized"}

Active(c) == cfg[c].st = "initialized"

-----------------------------------------------------------------------------
(* What users do *)

Becomes(side, t) ==
    IF side = 0 THEN R' = t /\ UNCHANGED L
    ELSE L' = [L EXCEPT ![side] = t] /\ UNCHANGED R

Free(t, p) == IF ParOf[p] \in DOMAIN t THEN t[ParOf[p]].k = "d" ELSE TRUE

\* Put something at a path, in place of what is there.
Put(side, p, node, op) ==
    LET t    == Tree(side)
        rest == Z!Without(t, Z!Under(p))
    IN  /\ Free(t, p)
        /\ Becomes(side, Z!MakeParents((p :> node) @@ rest, {p}))
        /\ live' = (live \ Seen(side, p))
                   \cup (IF node.k = "f" THEN {node.c} ELSE {})
        /\ clock' = clock + 1
        /\ hist' = Append(hist, <<op, side, p>>)
        /\ UNCHANGED <<K, D, X, cfg, pat, pub, up>>

Write(side, p) == "write" \in Edits
    /\ Put(side, p, File(clock, clock), "write")

WriteBig(side, p) == "big" \in Edits
    /\ Put(side, p, [File(clock, clock) EXCEPT !.b = 2 * Block], "big")

MakeDir(side, p) == "mkdir" \in Edits
    /\ ~(p \in DOMAIN Tree(side) /\ Tree(side)[p].k = "d")
    /\ Put(side, p, Z!DirNode, "mkdir")

MakeLink(side, p, u) ==
    /\ (IF u THEN "unsafe" ELSE "symlink") \in Edits
    /\ Put(side, p, Link(clock, clock, u), IF u THEN "unsafe" ELSE "symlink")

Delete(side, p) == "delete" \in Edits
    /\ p \in DOMAIN Tree(side)
    /\ Becomes(side, Z!Without(Tree(side), Z!Under(p)))
    /\ live' = live \ Seen(side, p)
    /\ clock' = clock + 1
    /\ hist' = Append(hist, <<"delete", side, p>>)
    /\ UNCHANGED <<K, D, X, cfg, pat, pub, up>>

\* Change whether a path is excluded.
Exclude(c, p) == "exclude" \in Edits
    /\ Active(c)
    /\ pat' = [pat EXCEPT ![c] = IF p \in @ THEN @ \ {p} ELSE @ \cup {p}]
    /\ clock' = clock + 1
    /\ hist' = Append(hist, <<"exclude", c, p>>)
    /\ UNCHANGED <<L, R, K, D, X, cfg, pub, up, live>>

Access(c, p) == "access" \in Edits
    /\ Active(c) /\ p \in DOMAIN K[c] /\ ~K[c][p].d
    /\ K' = [K EXCEPT ![c] = Z!Increment(@, {p}, 2)]
    /\ clock' = clock + 1
    /\ hist' = Append(hist, <<"access", c, p>>)
    /\ UNCHANGED <<L, R, D, X, cfg, pat, pub, up, live>>

SetLimit(c, n) == "limit" \in Edits
    /\ Active(c) /\ cfg[c].lim # n * Block
    /\ cfg' = [cfg EXCEPT ![c].lim = n * Block]
    /\ clock' = clock + 1
    /\ hist' = Append(hist, <<"limit", c, ToString(n)>>)
    /\ UNCHANGED <<L, R, K, D, X, pat, pub, up, live>>

User ==
    \/ \E side \in Sides, p \in Base :
          (Write(side, p) \/ WriteBig(side, p) \/ MakeDir(side, p) \/ Delete(side, p)
           \/ MakeLink(side, p, FALSE) \/ MakeLink(side, p, TRUE))
    \/ \E c \in Clients, p \in Base : Exclude(c, p) \/ Access(c, p)
    \/ \E c \in Clients, n \in Limits : SetLimit(c, n)

-----------------------------------------------------------------------------
(* What the program does *)

\* The names that files get: the first that nothing has.
Taken == UNION {DOMAIN L[c] : c \in Clients} \cup DOMAIN R
         \cup UNION {DOMAIN K[c] : c \in Clients} \cup DOMAIN D
Slot(p) ==
    LET free == {n \in Slots : Copy(Original[p], n) \notin Taken} IN
    IF free = {} THEN "none"
    ELSE Copy(Original[p], IF "1" \in free THEN "1" ELSE "2")
NameIn == [p \in All |-> Slot(p)]

\* What every client excludes, as far as this one knows.
ExAll(c) ==
    UNION {Z!Under(p) : p \in {q \in All : \A x \in Everyone :
        LET P == IF x = c THEN pat[x] ELSE pub[x]
        IN  q \in P \/ Z!Anc(q) \cap P # {}}}

SyncOf(c, l, r, k, d, last, now, naming) ==
    Z!Sync(l, r, k, d, [cfg[c] EXCEPT !.last = last], Matched(l, pat[c]),
           ExAll(c),
           RankOf, naming, now)

\* Whether there is a name left for every file that needs one.
Nameable(s, naming) ==
    LET named == s.older \cup s.newer \cup s.clash IN
    /\ \A p \in named : naming[p] # "none"
    /\ \A p, q \in named : p # q => naming[p] # naming[q]

InTrash(r, p) == [bases |-> <<NameOf[p]>>, tree |-> Z!TrashTree(r, p),
                  age |-> 0, plain |-> TRUE]
AddToTrash(x, r, S) ==
    LET new == S \cap DOMAIN r
        num(p) == Len(x) + Cardinality({q \in new : RankOf[q] <= RankOf[p]})
    IN  [n \in 1..(Len(x) + Cardinality(new)) |->
            IF n <= Len(x) THEN x[n]
            ELSE InTrash(r, CHOOSE p \in new : num(p) = n)]

\* What is seen of a sync.
Observed(c, s, cfg2, x2) ==
    LET named == s.older \cup s.newer \cup s.clash IN
    [ L |-> L[c], R |-> R, K |-> K[c], D |-> D, X |-> X, cfg |-> cfg[c],
      L2 |-> s.L, R2 |-> s.R, K2 |-> s.K, D2 |-> s.D, X2 |-> x2, cfg2 |-> cfg2,
      ex |-> Matched(L[c], pat[c]), exall |-> {}, rank |-> RankOf,
      nn |-> [p \in named |-> NameIn[p]], now |-> clock, res |-> "ok" ]

\* The properties of a single sync.
SyncClauses(e, s) ==
    [ P01 |-> Z!Agreement(e, s),    P03 |-> Z!Conflicts(e, s),
      P04 |-> Z!Propagation(e, s),  P05 |-> Z!Deletions(e, s),
      P06 |-> Z!Trashing(e, s),     P07 |-> Z!Retention(e, s),
      P08 |-> Z!Exclusion(e, s),    P09 |-> Z!Storage(e, s),
      P10 |-> Z!Choice(e, s),       P12 |-> Z!Mirror(e, s),
      P22 |-> Z!Symlinks(e, s),     P23 |-> Z!Fidelity(e) ]

\* What is deleted is in the trash if there was no other copy of it.
TrashClauses(c, s, x2) ==
    LET due == {q \in Z!Regular(R) : /\ q \in Z!UnderAll(s.delR)
                                     /\ q \in DOMAIN K[c] /\ ~K[c][q].l}
        new == UNION {{x2[n].tree[q].c : q \in DOMAIN x2[n].tree} :
                        n \in (DOMAIN x2) \ DOMAIN X}
    IN  [ binned |-> IF cfg[c].trash THEN {q \in due : R[q].c \notin new} ELSE {},
          extra  |-> {q \in Z!Regular(R) :
                        /\ R[q].c \in new
                        /\ \/ ~cfg[c].trash \/ Z!SameAt(R, q, s.R, q)
                           \* Whatever is in a directory goes with it.
                           \/ \A r \in ({q} \cup Z!Anc(q)) \cap DOMAIN K[c] :
                                 K[c][r].l} ]

\* Another sync right after one has nothing to do.
Settled(c, s) ==
    LET again == Z!Sync(s.L, s.R, s.K, s.D, [cfg[c] EXCEPT !.last = clock],
                    Matched(s.L, pat[c]),
                    ExAll(c),
                    RankOf, NameIn, clock + 1)
    IN  [ local  |-> IF again.L # s.L THEN {<<s.L, again.L>>} ELSE {},
          remote |-> IF again.R # s.R THEN {<<s.R, again.R>>} ELSE {},
          rows   |-> {p \in (DOMAIN s.K) \cup DOMAIN again.K :
                        \/ p \notin DOMAIN s.K \/ p \notin DOMAIN again.K
                        \/ s.K[p].p # again.K[p].p
                        \* Whether a directory is local is only settled once
                        \* what is excluded has been removed.
                        \/ ~s.K[p].d /\ s.K[p] # again.K[p]} ]

Failing(clauses) ==
    UNION {{<<p, n, clauses[p][n]>> : n \in {m \in DOMAIN clauses[p] :
                clauses[p][m] # {}}} : p \in DOMAIN clauses}

\* Stop at the first behaviour that doesn't have a property.
Check(clauses) ==
    LET bad == Failing(clauses) IN
    IF bad = {} THEN TRUE
    ELSE Assert(FALSE, <<"SPECIFICATION", bad, hist, L, R, K, D>>)

Contents ==
    Z!Present(L, R, [n \in DOMAIN X |-> X[n]])

Present2(l, r, x) == Z!Present(l, r, x)

Sync(c) == "sync" \in Commands
    /\ Active(c) /\ up
    /\ LET naming == NameIn
           s    == SyncOf(c, L[c], R, K[c], D, cfg[c].last, clock, naming)
           cfg2 == [cfg[c] EXCEPT !.last = clock]
           x2   == AddToTrash(X, R, s.trash)
           l2   == [L EXCEPT ![c] = s.L]
           e    == [Observed(c, s, cfg2, x2) EXCEPT !.exall = ExAll(c)]
       IN  /\ Nameable(s, naming)
           /\ Check(SyncClauses(e, s) @@ ("P20" :> Settled(c, s))
                    @@ ("P06t" :> TrashClauses(c, s, x2))
                    @@ ("P02" :> [lost |-> live \ Present2(l2, s.R, x2)])) = TRUE
           /\ L' = l2
           /\ R' = s.R
           /\ K' = [K EXCEPT ![c] = s.K]
           /\ D' = s.D
           /\ X' = x2
           /\ cfg' = [cfg EXCEPT ![c] = cfg2]
           /\ pub' = [pub EXCEPT ![c] = pat[c]]
    /\ clock' = clock + 1
    /\ hist' = Append(hist, <<"sync", c, "">>)
    /\ UNCHANGED <<pat, up, live>>

\* A sync that is interrupted at some point, and the one that follows it.
CrashClauses(c, s, m, e) ==
    LET x2  == IF m.trashed THEN AddToTrash(X, R, s.trash) ELSE X
        s2  == Z!Sync(m.L, m.R, m.K, m.D, cfg[c], Matched(m.L, pat[c]),
                      e.exall, RankOf, NameIn, clock + 1)
        x3  == AddToTrash(x2, m.R, s2.trash)
        named == s2.older \cup s2.newer \cup s2.clash
        e2  == [ L |-> m.L, R |-> m.R, K |-> m.K, D |-> m.D, X |-> x2,
                 cfg |-> cfg[c], L2 |-> s2.L, R2 |-> s2.R, K2 |-> s2.K,
                 D2 |-> s2.D, X2 |-> x3, cfg2 |-> [cfg[c] EXCEPT !.last = clock + 1],
                 ex |-> Matched(m.L, pat[c]), exall |-> e.exall,
                 rank |-> RankOf, nn |-> [p \in named |-> NameIn[p]],
                 now |-> clock + 1, res |-> "ok" ]
    IN  Z!Recovery(e, e2)
        @@ ("torn" :> UNION {Z!Atomic(e, s, s.L, s.R, m.L, m.R)[f] :
                               f \in {"local", "remote", "goneL", "goneR"}})
        @@ ("lost" :> live \ Present2([L EXCEPT ![c] = m.L], m.R, x2))

Crash(c) == "crash" \in Commands
    /\ Active(c) /\ up
    /\ LET naming == NameIn
           s == SyncOf(c, L[c], R, K[c], D, cfg[c].last, clock, naming)
           e == [Observed(c, s, cfg[c], X) EXCEPT !.exall = ExAll(c)]
       IN  /\ Nameable(s, naming)
           /\ \E n \in DOMAIN s.phases :
                LET m == s.phases[n] IN
                /\ Check("P13" :> CrashClauses(c, s, m, e)) = TRUE
                /\ L' = [L EXCEPT ![c] = m.L]
                /\ R' = m.R
                /\ K' = [K EXCEPT ![c] = m.K]
                /\ D' = m.D
                /\ X' = IF m.trashed THEN AddToTrash(X, R, s.trash) ELSE X
                /\ hist' = Append(hist, <<"crash", c, ToString(n)>>)
    /\ pub' = [pub EXCEPT ![c] = pat[c]]
    /\ clock' = clock + 1
    /\ UNCHANGED <<cfg, pat, up, live>>

Empty(c) == "empty" \in Commands
    /\ Active(c) /\ up /\ X # << >>
    /\ X' = << >>
    /\ live' = live \ UNION {{X[n].tree[q].c : q \in DOMAIN X[n].tree} :
                              n \in DOMAIN X}
    /\ clock' = clock + 1
    /\ hist' = Append(hist, <<"empty", c, "">>)
    /\ UNCHANGED <<L, R, K, D, cfg, pat, pub, up>>

\* What must be so once a profile has been set up, whatever there was.
InitClauses(l, r, l2, r2, k2, d2) ==
    [ unlike  |-> {p \in DOMAIN r2 :
                     /\ ~Z!Unsafe(r2[p])
                     /\ \/ ~Z!Has(l2, p)
                        \/ l2[p].k # "p" /\ ~Z!SameAt(l2, p, r2, p)},
      dangling |-> {p \in DOMAIN l2 : l2[p].k = "p" /\ ~Z!Has(r2, p)},
      left    |-> {p \in DOMAIN l2 : ~Z!Unsafe(l2[p]) /\ ~Z!Has(r2, p)},
      gone    |-> ((DOMAIN l) \ DOMAIN l2) \cup ((DOMAIN r) \ DOMAIN r2),
      changed |-> {p \in DOMAIN r : ~Z!SameAt(r, p, r2, p)},
      copied  |-> {p \in DOMAIN l : ~Z!Unsafe(l[p]) /\ ~Z!SameAt(l, p, r2, p)},
      rows    |-> {p \in (DOMAIN r2) \cup DOMAIN k2 \cup DOMAIN d2 :
                     (p \in DOMAIN r2 /\ ~Z!Unsafe(r2[p])) # (p \in DOMAIN k2)}
                  \cup ((DOMAIN k2) \ DOMAIN d2) ]

SetUp(c, add) == "init" \in Commands
    /\ cfg[c].st = "none"
    /\ (IF add THEN L[c] = Nothing ELSE R = Nothing /\ ~up) = TRUE
    /\ LET s  == IF add THEN Z!InitRemote(L[c], R, D, clock)
                ELSE Z!InitLocal(L[c], {}, clock)
           l2 == [L EXCEPT ![c] = s.L]
       IN  /\ Check("P14" :> InitClauses(L[c], R, s.L, s.R, s.K, s.D)
                    @@ "P02" :> [lost |-> live \ Present2(l2, s.R, X)]) = TRUE
           /\ L' = l2
           /\ R' = s.R
           /\ K' = [K EXCEPT ![c] = s.K]
           /\ D' = s.D
    /\ cfg' = [cfg EXCEPT ![c].st = "initialized", ![c].last = clock]
    /\ pat' = [pat EXCEPT ![c] = {}]
    /\ pub' = [pub EXCEPT ![c] = {}]
    /\ up' = TRUE
    /\ clock' = clock + 1
    /\ hist' = Append(hist, <<"init", c, IF add THEN "add" ELSE "new">>)
    /\ UNCHANGED <<X, live>>

\* What must be so once a profile has been taken apart.
ResetClauses(c, form, l2, r2) ==
    LET mine == Z!Unsynced(L[c], K[c], cfg[c]) IN
    [ linked  |-> {p \in DOMAIN l2 : l2[p].k = "p"},
      edited  |-> {p \in mine : ~Z!SameAt(l2, p, L[c], p)},
      whole   |-> {p \in DOMAIN L[c] : L[c][p].k # "p" /\ ~Z!Has(l2, p)},
      fetched |-> IF form = "bare" THEN {}
                  ELSE {p \in DOMAIN R : ~Z!SameAt(l2, p, R, p)}
                       \ (mine \cup UNION {Z!Under(p) :
                            p \in Z!Clashing(L[c], R)}),
      remote  |-> IF form = "drop" THEN DOMAIN r2
                  ELSE {p \in DOMAIN R : ~Z!SameAt(R, p, r2, p)} ]

TakeApart(c, form) == "reset" \in Commands
    /\ Active(c)
    /\ (form # "bare" => up) = TRUE
    /\ (form = "drop" => ~Z!ResetRefused(L[c], R, K[c], D, cfg[c])) = TRUE
    /\ LET l2 == Z!ResetLocal(L[c], R, K[c], cfg[c], form # "bare")
           r2 == IF form = "drop" THEN Nothing ELSE R
           x2 == IF form = "drop" THEN << >> ELSE X
           thrown == IF form # "drop" THEN {}
                     ELSE UNION {{X[n].tree[q].c : q \in DOMAIN X[n].tree} :
                                   n \in DOMAIN X}
       IN  /\ Check("P16" :> ResetClauses(c, form, l2, r2)
                    @@ "P02" :> [lost |-> (live \ thrown)
                                   \ Present2([L EXCEPT ![c] = l2], r2, x2)]) = TRUE
           /\ L' = [L EXCEPT ![c] = l2]
           /\ R' = r2
           /\ X' = x2
           /\ D' = IF form = "drop" THEN Nothing ELSE D
           /\ live' = live \ thrown
           /\ up' = (form # "drop" /\ up)
           /\ pub' = IF form = "drop" THEN [x \in Clients |-> {}]
                     ELSE [pub EXCEPT ![c] = {}]
    /\ K' = [K EXCEPT ![c] = Nothing]
    /\ cfg' = [cfg EXCEPT ![c].st = "none", ![c].last = 0]
    /\ pat' = [pat EXCEPT ![c] = {}]
    /\ clock' = clock + 1
    /\ hist' = Append(hist, <<"reset", c, form>>)

Program ==
    \E c \in Clients :
        \/ Sync(c) \/ Crash(c) \/ Empty(c) \/ SetUp(c, TRUE) \/ SetUp(c, FALSE)
        \/ \E form \in {"keep", "drop", "bare"} : TakeApart(c, form)

-----------------------------------------------------------------------------
Settings(c, lim, trash) ==
    [st |-> "initialized", last |-> 1, lim |-> lim * Block, link |-> Block,
     trash |-> trash, infl |-> TRUE, bysize |-> TRUE, period |-> 30 * 86400]

\* All clients have been set up and have synced, with no files or with some.
InitialTree(base) ==
    IF base = "empty" THEN Nothing
    ELSE ("a" :> File(0, 0)) @@ ("d" :> Z!DirNode) @@ ("d/b" :> File(1, 0))

Init ==
    /\ clock = 3
    /\ \E base \in Bases, lim \in Limits, trash \in Trashing :
        LET r  == InitialTree(base)
            d  == Z!AddRemoteRows(Nothing, Z!Files(r), Z!Dirs(r), 1)
            k0 == Z!AddRows(Nothing, Z!Files(r), Z!Dirs(r), 0, FALSE)
            c0 == Settings(1, lim, trash)
            l0 == [p \in DOMAIN r |-> IF Z!IsDir(r[p]) THEN Z!DirNode ELSE Z!LinkNode]
            s  == Z!Sync(l0, r, k0, d, c0, {}, {}, RankOf,
                         [p \in All |-> "none"], 2)
        IN  /\ IF base \in {"local", "remote"}
               THEN /\ R = IF base = "remote" THEN r ELSE Nothing
                    /\ D = Nothing
                    /\ L = [c \in Clients |-> IF base = "local" /\ c = 1
                                             THEN r ELSE Nothing]
                    /\ K = [c \in Clients |-> Nothing]
                    /\ cfg = [c \in Clients |->
                                 [c0 EXCEPT !.last = 0, !.st = "none"]]
                    /\ up = FALSE
               ELSE /\ R = s.R /\ D = s.D
                    /\ L = [c \in Clients |-> s.L]
                    /\ K = [c \in Clients |-> s.K]
                    /\ cfg = [c \in Clients |-> [c0 EXCEPT !.last = 2]]
                    /\ up = TRUE
            /\ live = {r[p].c : p \in Z!Regular(r)}
            /\ hist = <<<<"begin", lim, base \o (IF trash THEN "" ELSE "-notrash")>>>>
    /\ X = << >>
    /\ pat = [c \in Clients |-> {}]
    /\ pub = [c \in Clients |-> {}]

Next == Len(hist) <= MaxSteps /\ (User \/ Program)

Spec == Init /\ [][Next]_vars

-----------------------------------------------------------------------------
(* Only the order of times matters, and contents are times. *)

Number == [x \in {ToString(n) : n \in 0..60} |->
             CHOOSE n \in 0..60 : ToString(n) = x]
Nodes == UNION {{L[c][p] : p \in DOMAIN L[c]} : c \in Clients}
         \cup {R[p] : p \in DOMAIN R}
Times == {n.m : n \in Nodes} \cup {Number[n.c] : n \in {x \in Nodes : x.k \in {"f", "l"}}}
         \cup {D[p].s : p \in DOMAIN D} \cup {cfg[c].last : c \in Clients}
When(x) == Cardinality({y \in Times : y < x})
Norm(n) == [n EXCEPT !.m = When(n.m),
                     !.c = IF n.k \in {"f", "l"} THEN ToString(When(Number[n.c]))
                           ELSE ""]
NormTree(t) == [p \in DOMAIN t |-> Norm(t[p])]

View == <<[c \in Clients |-> NormTree(L[c])], NormTree(R), K,
          [p \in DOMAIN D |-> [D[p] EXCEPT !.s = When(D[p].s)]],
          [c \in Clients |-> [cfg[c] EXCEPT !.last = When(cfg[c].last)]],
          pat, pub, up, {When(Number[x]) : x \in live}>>

\* Write out each behaviour that ends with a command in a new state.
Emit ==
    IF Len(hist) > 1 /\ hist[Len(hist)][1] \in Commands
    THEN PrintT(<<"CASE", ToJson(hist)>>) ELSE TRUE
=============================================================================
