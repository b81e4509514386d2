------------------------------- MODULE Zielen -------------------------------
(***************************************************************************)
(* The state of a zielen installation and what each of its commands does    *)
(* to that state.                                                           *)
(*                                                                          *)
(* This module only defines operators.  ZielenMC explores them as a state   *)
(* machine, ZielenTrace checks recorded executions of the program against   *)
(* them, and ZielenProps states the properties as relations between the     *)
(* state before and the state after a command.                              *)
(*                                                                          *)
(* A tree is a function from relative paths to nodes.  A node is a record   *)
(*   k  "f" regular file, "d" directory, "l" symlink made by the user,      *)
(*      "p" placeholder (local symlink to its own counterpart in the        *)
(*      remote directory)                                                   *)
(*   c  an identifier of the contents of a file or the target of a symlink  *)
(*   m  modification time      b  disk usage in bytes      o  file mode     *)
(*   u  whether a symlink is unsafe (absolute, or leading out of the tree)  *)
(*   r  whether a symlink leads into the remote directory                   *)
(* Times are ranks: only their order matters.                               *)
(*                                                                          *)
(* The row of a path in the profile database of a client is a record        *)
(*   d  is a directory    p  priority    l  kept in the local directory     *)
(* and its row in the database in the remote directory is a record          *)
(*   d  is a directory    s  time it was last updated by a sync             *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC

\* T.par[p] is the parent of p ("" at the top), T.anc[p] the set of its proper
\* ancestors and T.desc[p] a function from p and its descendants to their paths
\* relative to p.
CONSTANT T

-----------------------------------------------------------------------------
(* Paths *)

Known(p)    == p \in DOMAIN T.par
Parent(p)   == IF Known(p) THEN T.par[p] ELSE ""
Anc(p)      == IF Known(p) THEN {T.anc[p][i] : i \in DOMAIN T.anc[p]} ELSE {}
Under(p)    == IF Known(p) THEN DOMAIN T.desc[p] ELSE {p}
Rel(p, q)   == T.desc[p][q]

UnderAll(S) == UNION {Under(p) : p \in S}
Up(S)       == S \cup UNION {Anc(p) : p \in S}
Tops(S)     == {p \in S : Anc(p) \cap S = {}}

Restrict(f, S) == [x \in (DOMAIN f) \cap S |-> f[x]]
Without(f, S)  == [x \in (DOMAIN f) \ S |-> f[x]]

RECURSIVE SumOver(_, _)
SumOver(f, S) ==
    IF S = {} THEN 0
    ELSE LET x == CHOOSE y \in S : TRUE IN f[x] + SumOver(f, S \ {x})

MaxOf(S) == IF S = {} THEN 0 ELSE CHOOSE x \in S : \A y \in S : y <= x

-----------------------------------------------------------------------------
(* Nodes and trees *)

IsDir(n)    == n.k = "d"
Unsafe(n)   == n.k = "p" \/ (n.k = "l" /\ n.u)
Files(tree) == {p \in DOMAIN tree : ~IsDir(tree[p])}
Dirs(tree)  == {p \in DOMAIN tree : IsDir(tree[p])}
Regular(tree) == {p \in DOMAIN tree : tree[p].k = "f"}
Contents(tree) == {tree[p].c : p \in Regular(tree)}

DirNode     == [k |-> "d", c |-> "", m |-> 0, b |-> 0, o |-> 0, u |-> FALSE, r |-> FALSE]
LinkNode    == [k |-> "p", c |-> "", m |-> 0, b |-> 0, o |-> 0, u |-> FALSE, r |-> FALSE]

\* What a comparison of two trees looks at.  The times of directories and
\* placeholders mean nothing, and neither does the mode of a symlink.
View(n) == IF n.k = "f" THEN <<"f", n.c, n.m, n.o>>
           ELSE IF n.k = "l" THEN <<"l", n.c>>
           ELSE <<n.k>>
ViewTree(tree) == [p \in DOMAIN tree |-> View(tree[p])]

\* The tree with the missing ancestors of the paths in S added.
MakeParents(tree, S) ==
    LET new == (UNION {Anc(p) : p \in S}) \ DOMAIN tree
    IN  tree @@ [p \in new |-> DirNode]

\* Give the node at each path p in S the path to[p].
Rename(tree, S, to) ==
    LET moved == {to[p] : p \in S} IN
    [p \in ((DOMAIN tree) \ S) \cup moved |->
        IF p \in moved
        THEN tree[CHOOSE q \in S : to[q] = p]
        ELSE tree[p]]

-----------------------------------------------------------------------------
(* The profile database *)

Leaves(K) == (DOMAIN K) \ {Parent(p) : p \in DOMAIN K}

\* The priority of a directory is the sum of those of its children, and it is
\* local if all of its children are.
Derive(K) ==
    LET leaves == Leaves(K)
        prio   == [p \in DOMAIN K |-> K[p].p]
    IN  [p \in DOMAIN K |->
            IF p \in leaves THEN K[p]
            ELSE LET sub == leaves \cap Under(p) IN
                 [d |-> TRUE, p |-> SumOver(prio, sub),
                  l |-> \A q \in sub : K[q].l]]

AddRows(K, files, dirs, prio, loc) ==
    LET new == (files \cup dirs) \ DOMAIN K
    IN  Derive(K @@ [p \in new |-> [d |-> p \in dirs, p |-> prio, l |-> loc]])

\* A directory whose last child is removed has no priority left.
RmRows(K, S) ==
    LET rest  == Without(K, UnderAll(S))
        empty == {p \in DOMAIN rest :
                    /\ rest[p].d
                    /\ p \in Leaves(rest) /\ p \notin Leaves(K)}
    IN  Derive([p \in DOMAIN rest |->
                  IF p \in empty THEN [d |-> TRUE, p |-> 0, l |-> FALSE]
                  ELSE rest[p]])

SetLocal(K, S, loc) ==
    Derive([p \in DOMAIN K |->
              IF p \in S THEN [K[p] EXCEPT !.l = loc] ELSE K[p]])

Increment(K, S, n) ==
    Derive([p \in DOMAIN K |->
              IF p \in S THEN [K[p] EXCEPT !.p = @ + n] ELSE K[p]])

TopPriority(K) == MaxOf({K[p].p : p \in {q \in DOMAIN K : ~K[q].d}})

(* The remote database *)

AddRemoteRows(D, files, dirs, now) ==
    LET new == (files \cup dirs) \ DOMAIN D
    IN  D @@ [p \in new |-> [d |-> p \in dirs, s |-> now]]

RmRemoteRows(D, S) == Without(D, UnderAll(S))

-----------------------------------------------------------------------------
(* Comparing the two directories *)

\* The known paths that have gone from a tree, or have become a directory where
\* there was a file or the other way around.
Gone(K, tree) ==
    {p \in DOMAIN K : p \notin DOMAIN tree \/ IsDir(tree[p]) # K[p].d}

\* The paths in a tree that aren't known as what they are.
Unfamiliar(K, tree) ==
    {p \in DOMAIN tree : p \notin DOMAIN K \/ IsDir(tree[p]) # K[p].d}

LocalModified(L, K, last) ==
    {p \in Files(L) : p \in DOMAIN K /\ L[p].m > last /\ ~Unsafe(L[p])}

RemoteModified(R, K, D, last) ==
    {p \in Files(R) : p \in DOMAIN K /\ R[p].m > last}
    \cup {p \in Files(R) : p \in DOMAIN D /\ ~D[p].d /\ D[p].s > last}

-----------------------------------------------------------------------------
(* Choosing what to keep in the local directory *)

\* Whether a path with priority p and size a comes before one with priority q
\* and size b.  The rank decides between those of the same priority.
Before(bysize, p, a, i, q, b, j) ==
    LET pa == IF bysize THEN (IF a = 0 THEN 0 ELSE p * (IF b = 0 THEN 1 ELSE b))
              ELSE p
        qb == IF bysize THEN (IF b = 0 THEN 0 ELSE q * (IF a = 0 THEN 1 ELSE a))
              ELSE q
    IN  pa > qb \/ (pa = qb /\ i < j)

\* S as a sequence in the order in which it is considered.
RECURSIVE Ordered(_, _, _, _, _)
Ordered(S, bysize, prio, size, rank) ==
    IF S = {} THEN << >>
    ELSE LET x == CHOOSE y \in S : \A z \in S \ {y} :
                    Before(bysize, prio[y], size[y], rank[y],
                           prio[z], size[z], rank[z])
         IN  <<x>> \o Ordered(S \ {x}, bysize, prio, size, rank)

\* acc: dirs is the set of selected directories, sub everything under them and
\* space what remains.
RECURSIVE PickDirs(_, _, _, _, _, _)
PickDirs(seq, acc, K, size, limit, link) ==
    IF seq = << >> THEN acc
    ELSE
    LET d     == Head(seq)
        rows  == Under(d) \cap DOMAIN K
        files == {p \in rows : ~K[p].d}
        inner == acc.dirs \cap rows
        space == acc.space - size[d] + SumOver(size, inner)
                 + Cardinality(files \ acc.files) * link
        next  == IF d \in acc.sub \/ size[d] > limit \/ space < 0 THEN acc
                 ELSE [dirs  |-> (acc.dirs \ rows) \cup {d},
                       sub   |-> acc.sub \cup {p \in rows : K[p].d},
                       files |-> acc.files \cup files,
                       space |-> space]
    IN  PickDirs(Tail(seq), next, K, size, limit, link)

RECURSIVE PickFiles(_, _, _, _)
PickFiles(seq, acc, size, link) ==
    IF seq = << >> THEN acc
    ELSE
    LET f     == Head(seq)
        space == acc.space - size[f] + link
        next  == IF space > 0
                 THEN [files |-> acc.files \cup {f}, space |-> space]
                 ELSE acc
    IN  PickFiles(Tail(seq), next, size, link)

\* The directories and files to keep, given the rows, the remote tree, the disk
\* usage of excluded files, and the settings and ranks of a client.
Selection(K, R, excluded, cfg, rank) ==
    LET files  == {p \in DOMAIN K : ~K[p].d}
        dirs   == {p \in DOMAIN K : K[p].d}
        usage  == [p \in DOMAIN R |-> R[p].b]
        size   == [p \in DOMAIN K |->
                     SumOver(usage, (IF K[p].d THEN Under(p) \cap DOMAIN K
                                     ELSE {p}) \cap DOMAIN R)]
        prio   == [p \in DOMAIN K |-> K[p].p]
        weight == [p \in DOMAIN K |-> size[p] \div 512]
        space  == cfg.lim - excluded
        \* Sizes only matter relative to each other when ordering.
        pd     == PickDirs(
                    Ordered(dirs, cfg.bysize, prio, weight, rank),
                    [dirs |-> {}, sub |-> {}, files |-> {},
                     space |-> space - Cardinality(files) * cfg.link],
                    K, size, cfg.lim, cfg.link)
        cand   == files \ UnderAll(pd.dirs)
        pf     == PickFiles(
                    Ordered(cand, cfg.bysize, prio, weight, rank),
                    [files |-> {}, space |-> pd.space], size, cfg.link)
    IN  [dirs |-> pd.dirs, files |-> pf.files, space |-> pf.space]

-----------------------------------------------------------------------------
(* The sync command *)

\* What a sync of a client does, in the order in which it does it.
\*   L, R   the local and the remote tree
\*   K, D   the rows of the profile and of the remote database
\*   cfg    last: time of the last sync; lim: storage limit; link: disk usage
\*          counted for a placeholder; trash: removed placeholders go to the
\*          trash; infl: new local files get a priority; bysize: priorities
\*          are relative to size
\*   ex     the local paths excluded by this client
\*   exall  those that every client sharing the remote directory excludes
\*   rank   the alphabetical rank of each path
\*   name   the name that a file gets in a conflict
\*   now    the time of this sync
Sync(L, R, K, D, cfg, ex, exall, rank, name, now) ==
    LET
    \* Deletions.  Nothing that is new or has changed is ever deleted.
    modL0  == LocalModified(L, K, cfg.last)
    modR0  == RemoteModified(R, K, D, cfg.last)
    keptL  == Unfamiliar(K, L) \cup modL0 \cup ex
    keptR  == Unfamiliar(K, R) \cup modR0
    delL   == Gone(K, R) \ Up(keptL)
    delR   == Gone(K, L) \ Up(keptR)
    topL   == Tops(delL)
    topR   == Tops(delR)
    trash  == IF cfg.trash THEN {p \in topR : ~K[p].l} ELSE {}
    L1     == Without(L, UnderAll(topL))
    R1     == Without(R, UnderAll(topR))
    K1     == RmRows(K, topL \cup topR)
    D1     == RmRemoteRows(D, topL \cup topR)

    \* Forget what isn't in the remote directory.
    lost   == Gone(K1, R1)
    lostD  == Gone(D1, R1)
    K2     == RmRows(K1, lost \cup lostD)
    D2     == RmRemoteRows(D1, lost \cup lostD)

    \* A file that is a directory on the other side gets another name.
    clash  == {p \in (DOMAIN L1) \cap (DOMAIN R1) :
                 IsDir(L1[p]) # IsDir(R1[p])}
    clashL == {p \in clash : ~IsDir(L1[p])}
    clashR == clash \ clashL
    L3     == Rename(L1, clashL, name)
    R3     == Rename(R1, clashR, name)
    K3     == RmRows(K2, clash)
    D3     == RmRemoteRows(D2, clash)

    \* Additions and modifications.
    newL   == {p \in DOMAIN L3 : p \notin DOMAIN K3 /\ ~Unsafe(L3[p])}
              \ (ex \ DOMAIN R3)
    newR   == {p \in DOMAIN R3 : p \notin DOMAIN K3 \/ p \notin DOMAIN D3}
    modL   == LocalModified(L3, K3, cfg.last)
    modR   == RemoteModified(R3, K3, D3, cfg.last)
    dirs   == Dirs(L3) \cup Dirs(R3)
    files  == Files(L3) \cup Files(R3)
    K4     == IF cfg.infl
              THEN AddRows(K3, newL \ dirs, newL \ files, TopPriority(K3), TRUE)
              ELSE K3
    newAll == newL \cup newR
    K5     == AddRows(K4, newAll \ dirs, newAll \ files, 0, TRUE)
    D5     == AddRemoteRows(D3, newAll \ dirs, newAll \ files, now)

    \* Conflicts.  The file modified least recently gets another name.
    locP   == modL \cup newL
    remP   == modR \cup newR
    both   == {p \in locP \cap remP : p \in DOMAIN K5 /\ ~K5[p].d}
    older  == {p \in both : L3[p].m < R3[p].m}
    newer  == {p \in both : R3[p].m < L3[p].m}
    L6     == Rename(L3, older, name)
    R6     == Rename(R3, newer, name)
    named  == {name[p] : p \in older \cup newer}
    K6     == AddRows(RmRows(K5, older \cup newer), named, {}, 0, TRUE)
    D6     == AddRemoteRows(RmRemoteRows(D5, older \cup newer), named, {}, now)
    upL    == (locP \ older) \cup {name[p] : p \in older}
    upR    == (remP \ newer) \cup {name[p] : p \in newer}
    K7     == AddRows(
                IF cfg.infl THEN AddRows(K6, upL, {}, TopPriority(K6), TRUE)
                ELSE K6, upL \cup upR, {}, 0, TRUE)
    D7     == AddRemoteRows(D6, upL \cup upR, {}, now)

    \* Upload.
    R7     == [p \in DOMAIN R6 \cup upL |->
                 IF p \in upL /\ (p \notin DOMAIN R6 \/ ~IsDir(L6[p]))
                 THEN L6[p] ELSE R6[p]]
    D8     == [p \in DOMAIN D7 |->
                 IF p \in upL THEN [D7[p] EXCEPT !.s = now] ELSE D7[p]]

    \* Choose what to keep.
    remEx  == ex \cap DOMAIN R7
    exSize == SumOver([p \in DOMAIN L6 |-> L6[p].b], ex \cap DOMAIN L6)
    sel    == Selection(K7, R7, exSize, cfg, rank)
    keep   == sel.dirs \cup sel.files \cup remEx
    kept   == UnderAll(keep) \cap DOMAIN K7

    \* Replace the rest with placeholders.
    stale  == {p \in (DOMAIN L6) \ ex : p \in DOMAIN K7 /\ p \notin kept
                 /\ Under(p) \cap kept = {}}
    mine   == {p \in stale : /\ L6[p].k = "l"
                             /\ \/ L6[p].u
                                \/ p \in DOMAIN R7 /\ R7[p].k = "l"
                                   /\ R7[p].c = L6[p].c}
    linked == {p \in stale \ mine : ~IsDir(L6[p])}
    made   == (DOMAIN D8) \ DOMAIN L6
    L8     == [p \in DOMAIN L6 \cup made |->
                 IF p \in linked THEN LinkNode
                 ELSE IF p \in DOMAIN L6 THEN L6[p]
                 ELSE IF D8[p].d THEN DirNode ELSE LinkNode]

    \* Download.
    down   == UnderAll(keep) \cap DOMAIN R7
    L9     == [p \in DOMAIN L8 \cup down |->
                 IF p \in down /\ (p \notin DOMAIN L8 \/ ~IsDir(R7[p]))
                 THEN R7[p] ELSE L8[p]]
    K9     == SetLocal(SetLocal(K7, linked \cup made, FALSE),
                       UnderAll(keep), TRUE)

    \* Remove what everyone has excluded from the remote directory.
    drop   == remEx \cap exall \cap DOMAIN D8
    R10    == Without(R7, UnderAll(drop))
    K10    == RmRows(K9, drop)
    D10    == RmRemoteRows(D8, drop)
    IN
    [L |-> L9, R |-> R10, K |-> K10, D |-> D10, trash |-> trash,
     delL |-> delL, delR |-> delR, keptL |-> keptL, keptR |-> keptR,
     clash |-> clash, older |-> older, newer |-> newer, upL |-> upL,
     upR |-> upR, sel |-> sel, keep |-> keep, remEx |-> remEx,
     drop |-> drop, exSize |-> exSize, modL |-> modL, modR |-> modR,
     newL |-> newL, newR |-> newR, R7 |-> R7, K7 |-> K7,
     \* What a sync that is interrupted leaves behind.  The profile database
     \* is only written at the end, and the remote one before any local file
     \* is replaced.
     phases |->
       << [L |-> L1, R |-> R,   K |-> K, D |-> D,   trashed |-> FALSE],
          [L |-> L1, R |-> Without(R, UnderAll(topR \ trash)),
                               K |-> K, D |-> D,   trashed |-> FALSE],
          [L |-> L1, R |-> R1,  K |-> K, D |-> D,   trashed |-> TRUE],
          [L |-> L3, R |-> R1,  K |-> K, D |-> D,   trashed |-> TRUE],
          [L |-> L3, R |-> R3,  K |-> K, D |-> D,   trashed |-> TRUE],
          [L |-> L6, R |-> R3,  K |-> K, D |-> D,   trashed |-> TRUE],
          [L |-> L6, R |-> R6,  K |-> K, D |-> D,   trashed |-> TRUE],
          [L |-> L6, R |-> R7,  K |-> K, D |-> D,   trashed |-> TRUE],
          [L |-> L6, R |-> R7,  K |-> K, D |-> D8,  trashed |-> TRUE],
          [L |-> L8, R |-> R7,  K |-> K, D |-> D8,  trashed |-> TRUE],
          [L |-> L9, R |-> R7,  K |-> K, D |-> D8,  trashed |-> TRUE],
          [L |-> L9, R |-> R10, K |-> K, D |-> D8,  trashed |-> TRUE],
          [L |-> L9, R |-> R10, K |-> K, D |-> D10, trashed |-> TRUE] >>]

-----------------------------------------------------------------------------
(* The init command *)

\* A new profile with the files in the local directory.
InitLocal(L, ex, now) ==
    LET skip == ex \cup {p \in DOMAIN L : Unsafe(L[p])}
        R    == MakeParents(Without(L, skip), (DOMAIN L) \ skip)
        K    == AddRows(<< >>, Files(R), Dirs(R), 0, FALSE)
        D    == AddRemoteRows(<< >>, Files(R), Dirs(R), now)
        L1   == [p \in DOMAIN L |-> IF p \in Files(R) THEN LinkNode ELSE L[p]]
    IN  [L |-> L1, R |-> R, K |-> K, D |-> D]

\* A new profile with the files in a remote directory.
InitRemote(L, R, D, now) ==
    LET skip == {p \in DOMAIN R : Unsafe(R[p])}
        use  == Without(R, skip)
        K    == AddRows(<< >>, Files(use), Dirs(use), 0, FALSE)
        D1   == AddRemoteRows(D, Files(use), Dirs(use), now)
        L1   == L @@ [p \in DOMAIN use |->
                        IF IsDir(use[p]) THEN DirNode ELSE LinkNode]
    IN  [L |-> L1, R |-> R, K |-> K, D |-> D1]

-----------------------------------------------------------------------------
(* The reset command *)

\* The local files that a reset must not overwrite.
Unsynced(L, K, cfg) ==
    LocalModified(L, K, cfg.last)
    \cup {p \in Files(L) : p \notin DOMAIN K /\ L[p].k # "p"}

RemoteChanged(R, K, D, cfg) ==
    RemoteModified(R, K, D, cfg.last)
    \cup {p \in DOMAIN R : p \notin DOMAIN K \/ p \notin DOMAIN D}

Clashing(L, R) == {p \in (DOMAIN L) \cap DOMAIN R : IsDir(L[p]) # IsDir(R[p])}

ResetRefused(L, R, K, D, cfg) ==
    \/ Unsynced(L, K, cfg) \cap RemoteChanged(R, K, D, cfg) # {}
    \/ Clashing(L, R) # {}

\* Files are retrieved unless the user says otherwise.
ResetLocal(L, R, K, cfg, retrieve) ==
    LET skip == Unsynced(L, K, cfg) \cup UnderAll(Clashing(L, R))
        got  == IF retrieve THEN Without(R, skip) ELSE << >>
        L1   == [p \in DOMAIN L \cup DOMAIN got |->
                   IF p \in DOMAIN got /\ (p \notin DOMAIN L \/ ~IsDir(got[p]))
                   THEN got[p] ELSE L[p]]
    IN  Restrict(L1, {p \in DOMAIN L1 :
                        L1[p].k # "p" /\ ~(L1[p].k = "l" /\ L1[p].r)})
=============================================================================
