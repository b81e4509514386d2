----------------------------- MODULE ZielenProps -----------------------------
(***************************************************************************)
(* The properties of a single command, as relations between the state       *)
(* before it and the state after it.                                        *)
(*                                                                          *)
(* An observation e of a command by one client is a record                  *)
(*   L, R     the local and the remote tree before it                       *)
(*   K, D     the rows of the profile and of the remote database            *)
(*   X        the trash: names to [bases, tree, age, plain]                 *)
(*   cfg      the settings and the time of the last sync                    *)
(*   L2 ...   the same after it                                             *)
(*   ex       the local paths that match the exclude patterns of the client *)
(*   exall    those that match the patterns of all clients                  *)
(*   rank     the alphabetical rank of each path                            *)
(*   nn       the conflict names that appeared during the command           *)
(*   now      the time of the command                                       *)
(*                                                                          *)
(* For every property there is an operator from an observation and what the *)
(* specification makes of it to a record of clauses.  Each clause is a set  *)
(* of counterexamples, which is empty if it holds.                          *)
(***************************************************************************)
EXTENDS Zielen

Name(e) == [p \in (DOMAIN T.par) \cup {"??"} |-> IF p \in DOMAIN e.nn THEN e.nn[p] ELSE "??"]

Fresh(e) == {e.nn[p] : p \in DOMAIN e.nn}

Rank(e) == e.rank @@ [p \in {"??"} |-> -1]

Predict(e) == Sync(e.L, e.R, e.K, e.D, e.cfg, e.ex \cap DOMAIN e.L, e.exall,
                   Rank(e), Name(e), e.now)

Has(tree, p) == p \in DOMAIN tree
SameAt(t1, p, t2, q) ==
    /\ Has(t1, p) /\ Has(t2, q)
    /\ View(t1[p]) = View(t2[q])

\* What is at a path of a tree, or nothing.
At(tree, p) == IF Has(tree, p) THEN View(tree[p]) ELSE << >>

If(b, S) == IF b THEN S ELSE {}

\* A symlink that a user put in place of a synced file.
Strange(e, p) == Has(e.L, p) /\ e.L[p].k = "l" /\ e.L[p].u

-----------------------------------------------------------------------------
(* P01: after a sync, the directories agree. *)
Agreement(e, s) ==
    [ fails     |-> If(e.res # "ok", {e.res}),
      missing   |-> {p \in DOMAIN e.R2 : ~Has(e.L2, p)},
      differs   |-> {p \in (DOMAIN e.R2) \cap DOMAIN e.L2 :
                       /\ ~(e.L2[p].k = "p" /\ ~IsDir(e.R2[p]))
                       /\ ~SameAt(e.L2, p, e.R2, p)
                       /\ ~Strange(e, p)},
      dangling  |-> {p \in DOMAIN e.L2 : e.L2[p].k = "p" /\ ~Has(e.R2, p)}
                   \ (e.ex \cup {p \in DOMAIN e.L : \* Moved by the user.
                                   e.L[p].k = "p" /\ p \notin DOMAIN e.K}),
      unsynced  |-> {p \in (DOMAIN e.L2) \ e.ex :
                       ~Unsafe(e.L2[p]) /\ ~Has(e.R2, p)}
                   \ UnderAll(e.ex) ]

(* P02: no contents are lost.  See ZielenTrace. *)
Present(locals, R, X) ==
    UNION {Contents(locals[i]) : i \in DOMAIN locals}
    \cup Contents(R)
    \cup UNION {{X[n].tree[q].c : q \in {r \in DOMAIN X[n].tree :
                    X[n].tree[r].k = "f"}} : n \in DOMAIN X}

(* P03: conflicts. *)
Conflicts(e, s) ==
    LET nm      == Name(e)
        renamed == s.older \cup s.newer \cup s.clash
        \* What everyone excludes is only kept locally.
        keeper(p) == IF nm[p] \in UnderAll(s.drop) THEN e.L2 ELSE e.R2
    IN
    [ localcopy   |-> {p \in s.older : ~SameAt(keeper(p), nm[p], e.L, p)},
      remotecopy  |-> {p \in s.newer : ~SameAt(keeper(p), nm[p], e.R, p)},
      newerremote |-> {p \in s.older : At(e.R2, p) # At(e.R, p)} \ s.drop,
      newerlocal  |-> {p \in s.newer : At(e.R2, p) # At(e.L, p)} \ s.drop,
      clashlocal  |-> {p \in s.clash : ~IsDir(e.L[p])
                         /\ ~Unsafe(e.L[p]) /\ ~SameAt(keeper(p), nm[p], e.L, p)},
      clashremote |-> {p \in s.clash : IsDir(e.L[p])
                         /\ ~SameAt(keeper(p), nm[p], e.R, p)},
      clashdir    |-> {p \in s.clash : ~(Has(e.R2, p) /\ IsDir(e.R2[p]))}
                      \ (UnderAll(s.drop) \cup e.ex),
      onboth      |-> {nm[p] : p \in {q \in renamed : ~Has(e.L2, nm[q])}},
      spurious    |-> {p \in DOMAIN e.nn : p \notin renamed},
      overwritten |-> {p \in renamed : Has(e.L, nm[p]) \/ Has(e.R, nm[p])}
                      \ {p \in renamed :
                           nm[p] \in UnderAll(s.delL \cup s.delR)} ]

(* P04: a change made on one side only takes effect on both. *)
Propagation(e, s) ==
    LET locF  == {p \in s.modL \cup s.newL : Has(e.L, p) /\ ~IsDir(e.L[p])
                    /\ p \notin s.clash}
        remF  == {p \in s.modR \cup s.newR : Has(e.R, p) /\ ~IsDir(e.R[p])
                    /\ p \notin s.clash}
        gone  == s.delL \cup s.delR \cup UnderAll(s.drop)
        still == {p \in Files(e.R) : p \in DOMAIN e.K /\ p \in DOMAIN e.D}
                 \ (locF \cup remF \cup gone \cup s.clash)
    IN
    [ \* What is recognised next time depends on the time of this sync.
      time     |-> If(e.cfg2.last # e.now, {e.cfg2.last}),
      upload   |-> {p \in (locF \ remF) \ gone : ~SameAt(e.R2, p, e.L, p)},
      download |-> {p \in (remF \ locF) \ gone :
                      \/ ~SameAt(e.R2, p, e.R, p)
                      \/ ~Has(e.L2, p)
                      \/ e.L2[p].k # "p" /\ ~SameAt(e.L2, p, e.R, p)
                         /\ ~Strange(e, p)},
      kept     |-> {p \in still : ~SameAt(e.R2, p, e.R, p)},
      dirs     |-> {p \in (Dirs(e.L) \cap s.newL) \cup (Dirs(e.R) \cap s.newR) :
                      ~(Has(e.R2, p) /\ IsDir(e.R2[p]))} \ gone,
      invented |-> {p \in DOMAIN e.R2 : ~Has(e.R, p) /\ ~Has(e.L, p)
                      /\ p \notin Fresh(e)} ]

(* P05: deletions. *)
Deletions(e, s) ==
    LET moved == s.older \cup s.newer \cup s.clash
        drop  == UnderAll(s.drop)
    IN
    [ localdel  |-> {p \in s.delR : ~Has(e.L, p) /\ Has(e.R2, p)} \ Fresh(e),
      remotedel |-> {p \in s.delL : ~Has(e.R, p) /\ Has(e.L2, p)} \ Fresh(e),
      lostR     |-> {p \in DOMAIN e.R : ~Has(e.R2, p)}
                    \ (s.delR \cup UnderAll(s.delR) \cup moved \cup drop),
      lostL     |-> {p \in DOMAIN e.L : ~Has(e.L2, p)}
                    \ (UnderAll(s.delL) \cup UnderAll(s.delR) \cup moved) ]

(* P06: what goes to the trash. *)
TrashTree(R, p) ==
    [q \in {Rel(p, r) : r \in Under(p) \cap DOMAIN R} |->
        LET r == CHOOSE x \in Under(p) \cap DOMAIN R : Rel(p, x) = q
        IN  [k |-> R[r].k, c |-> R[r].c]]

Trashing(e, s) ==
    LET new    == (DOMAIN e.X2) \ DOMAIN e.X
        due    == {p \in s.trash : Has(e.R, p)}
        Fits(p, n) == /\ T.base[p] \in {e.X2[n].bases[i] :
                                          i \in DOMAIN e.X2[n].bases}
                      /\ e.X2[n].tree = TrashTree(e.R, p)
        tree(p) == TrashTree(e.R, p)
    IN  IF e.cfg.period = 0 THEN [none |-> {}] ELSE
    [ untrashed |-> {p \in due : ~\E n \in new : Fits(p, n)},
      toofew    |-> {p \in due :
                       Cardinality({n \in new : Fits(p, n)})
                       < Cardinality({q \in due : T.base[q] = T.base[p]
                                        /\ tree(q) = tree(p)})},
      extra     |-> If(Cardinality(new) > Cardinality(due), new),
      changed   |-> {n \in (DOMAIN e.X) \cap DOMAIN e.X2 :
                       e.X[n].tree # e.X2[n].tree} ]

(* P07: how long things stay in the trash. *)
Slack == 1000
SameTrash(e) ==
    /\ DOMAIN e.X = DOMAIN e.X2
    /\ \A n \in DOMAIN e.X : /\ [e.X[n] EXCEPT !.age = 0] = [e.X2[n] EXCEPT !.age = 0]
                              /\ e.X2[n].age - e.X[n].age \in -Slack..Slack
Expired(cfg, x) == cfg.period >= 0 /\ x.age >= cfg.period
Retention(e, s) ==
    [ tooearly |-> {n \in DOMAIN e.X : n \notin DOMAIN e.X2
                      /\ (e.cfg.period < 0 \/ e.X[n].age < e.cfg.period - Slack)},
      toolate  |-> {n \in DOMAIN e.X : n \in DOMAIN e.X2 /\ e.cfg.period >= 0
                      /\ e.X[n].age > e.cfg.period + Slack},
      newage   |-> {n \in (DOMAIN e.X2) \ DOMAIN e.X :
                      e.X2[n].age > Slack},
      lostnew  |-> IF e.cfg.period = 0 THEN {} ELSE
                   If(Cardinality((DOMAIN e.X2) \ DOMAIN e.X)
                      < Cardinality({p \in s.trash : Has(e.R, p)}), s.trash) ]

(* P08: exclusion. *)
Exclusion(e, s) ==
    LET ex    == e.ex \cap DOMAIN e.L
        moved == s.older \cup s.newer \cup s.clash
        inR   == {p \in ex : p \in DOMAIN s.R7}
        \* What another client or the user changed in the remote directory.
        follow == {p \in inR : p \in s.upR /\ p \notin s.upL}
    IN
    [ uploaded  |-> {p \in ex : ~Has(e.R, p) /\ Has(e.R2, p)},
      deleted   |-> {p \in ex \ moved : ~Has(e.L2, p)},
      altered   |-> {p \in (ex \ inR) \ moved :
                       Has(e.L2, p) /\ ~SameAt(e.L2, p, e.L, p)},
      fetched   |-> {p \in inR \ moved :
                       Has(e.L2, p) /\ ~SameAt(e.L2, p, s.R7, p)
                       /\ ~Strange(e, p)},
      linked    |-> {p \in inR \ moved : Has(e.L2, p) /\ e.L2[p].k = "p"},
      leftover  |-> {p \in ex \cap e.exall : Has(s.R7, p) /\ Has(e.R2, p)},
      removed   |-> {p \in inR : ~Has(e.R2, p)} \ UnderAll(e.exall),
      overreach |-> {p \in (DOMAIN s.R7) \ UnderAll(ex \cap e.exall) :
                       ~Has(e.R2, p)} ]

(* P09: the storage limit. *)
Storage(e, s) ==
    LET remEx == s.remEx
        files == {p \in Files(s.R7) : p \in DOMAIN s.K7}
        whole == {p \in files : Has(e.L2, p) /\ e.L2[p].k # "p"}
        real  == whole \ UnderAll(remEx)
        size  == [p \in real |-> e.L2[p].b]
        used  == SumOver(size, real)
                 + Cardinality(files \ whole) * e.cfg.link + s.exSize
    IN
    [ over |-> If(used > e.cfg.lim /\ real # {}
                  /\ \E p \in real : size[p] > 0, real) ]

(* P10: which files are kept. *)
Choice(e, s) ==
    LET rows  == IF s.drop = {} THEN e.K2 ELSE s.K7
        tree  == IF s.drop = {} THEN e.R2 ELSE s.R7
        sane  == {p \in DOMAIN rows : p \in DOMAIN tree
                    /\ rows[p].d = IsDir(tree[p])} = DOMAIN rows
        sel   == IF sane THEN Selection(rows, tree, s.exSize, e.cfg, Rank(e))
                 ELSE s.sel
        want  == UnderAll(sel.dirs \cup sel.files \cup s.remEx)
        files == {p \in Files(tree) : p \in DOMAIN rows}
    IN
    [ dropped |-> {p \in files \cap want :
                     Has(e.L2, p) /\ e.L2[p].k = "p"},
      hoarded |-> {p \in files \ want :
                     /\ Has(e.L2, p) /\ e.L2[p].k \notin {"p", "l"}
                     /\ p \notin e.ex} ]

(* P11: priorities. *)
Priorities(e, s) ==
    LET both == (DOMAIN e.K2) \cap DOMAIN s.K IN
    [ wrong |-> {p \in both : ~s.K[p].d /\ e.K2[p].p # s.K[p].p},
      sums  |-> {p \in both : s.K[p].d /\ e.K2[p].p # s.K[p].p} ]

(* P12: the databases mirror the directories. *)
Mirror(e, s) ==
    [ profile  |-> {p \in (DOMAIN e.K2) \cup DOMAIN e.R2 :
                      (p \in DOMAIN e.K2) # (p \in DOMAIN e.R2)},
      remote   |-> {p \in (DOMAIN e.D2) \cup DOMAIN e.R2 :
                      (p \in DOMAIN e.D2) # (p \in DOMAIN e.R2)},
      types    |-> {p \in DOMAIN e.R2 :
                      \/ p \in DOMAIN e.K2 /\ e.K2[p].d # IsDir(e.R2[p])
                      \/ p \in DOMAIN e.D2 /\ e.D2[p].d # IsDir(e.R2[p])},
      local    |-> {p \in DOMAIN e.K2 :
                      p \in DOMAIN s.K /\ e.K2[p].l # s.K[p].l},
      flag     |-> {p \in (DOMAIN e.K2) \cap DOMAIN e.L2 :
                      /\ ~e.K2[p].d /\ e.L2[p].k # "l"
                      /\ e.K2[p].l # (e.L2[p].k # "p")},
      times    |-> {p \in DOMAIN e.D2 :
                      p \in DOMAIN s.D /\ e.D2[p].s # s.D[p].s} ]

(* P22: symlinks. *)
Symlinks(e, s) ==
    [ leaked   |-> {p \in DOMAIN e.L : e.L[p].k = "l" /\ e.L[p].u
                      /\ Has(e.R2, p) /\ e.R2[p].k = "l" /\ ~Has(e.R, p)}
                   \ Fresh(e),
      followed |-> {p \in DOMAIN e.R2 : e.R2[p].k = "f" /\ ~Has(e.R, p)
                      /\ Has(e.L, p) /\ e.L[p].k = "l"} \ Fresh(e),
      changed  |-> {p \in DOMAIN e.L : e.L[p].k = "l" /\ e.L[p].u
                      /\ ~Has(e.R, p) /\ ~Has(e.R2, p)
                      /\ p \notin DOMAIN e.K
                      /\ ~SameAt(e.L2, p, e.L, p)} \ Fresh(e),
      target   |-> {p \in DOMAIN e.L : e.L[p].k = "l" /\ ~e.L[p].u
                      /\ p \in s.newL /\ p \notin s.newR /\ p \notin s.clash
                      /\ ~SameAt(e.R2, p, e.L, p)}
                   \ (UnderAll(s.drop) \cup Fresh(e)) ]

(* P25: the whole outcome is the one that the specification gives. *)
Outcome(e, s) ==
    [ time    |-> If(e.cfg2.last # e.now, {e.cfg2.last}),
      status  |-> If(e.cfg2.st # e.cfg.st, {e.cfg2.st}),
      local   |-> {p \in (DOMAIN e.L2) \cup DOMAIN s.L :
                     At(e.L2, p) # At(s.L, p)}
                  \* A link to what is no longer a file keeps its target.
                  \ {Name(e)[p] : p \in {q \in s.clash : Has(e.L, q)
                                            /\ e.L[q].k = "p"}},
      remote  |-> {p \in (DOMAIN e.R2) \cup DOMAIN s.R :
                     At(e.R2, p) # At(s.R, p)},
      profile |-> {p \in (DOMAIN e.K2) \cup DOMAIN s.K :
                     \/ p \notin DOMAIN e.K2 \/ p \notin DOMAIN s.K
                     \/ e.K2[p] # s.K[p]},
      shared  |-> {p \in (DOMAIN e.D2) \cup DOMAIN s.D :
                     \/ p \notin DOMAIN e.D2 \/ p \notin DOMAIN s.D
                     \/ e.D2[p] # s.D[p]} ]

-----------------------------------------------------------------------------
(* P23: files keep their contents, permissions and times. *)
Sources(e, p) ==
    {At(e.L, p), At(e.R, p)}
    \cup UNION {{At(e.L, q), At(e.R, q)} : q \in {r \in DOMAIN e.nn : e.nn[r] = p}}

Fidelity(e) ==
    LET forged(t2) == {p \in DOMAIN t2 : t2[p].k \in {"f", "l"}
                         /\ At(t2, p) \notin Sources(e, p)}
    IN
    [ local  |-> {p \in forged(e.L2) : ~(p \in Fresh(e) /\ e.L2[p].k = "l")},
      remote |-> forged(e.R2) ]

(* P26: a command only affects its own client and what is shared. *)
Isolation(e) ==
    [ clients |-> {i \in DOMAIN e.others : e.others[i] # e.others2[i]} ]

-----------------------------------------------------------------------------
(* P28: what there is while a sync runs.                                     *)
(* At every moment, every path has an old or a new version, and what has     *)
(* both is always there.  fL and fR are the trees that the sync leads to and *)
(* mL and mR those at some moment.                                           *)
Atomic(e, s, fL, fR, mL, mR) ==
    LET moved == s.older \cup s.newer \cup s.clash
        old(p) == Sources(e, p) \cup {At(fL, p), At(fR, p), At(s.L, p), At(s.R, p)}
        torn(t) == {p \in DOMAIN t : t[p].k \in {"f", "l"}
                      /\ View(t[p]) \notin old(p)}
        gaps(m, b, f) == {p \in DOMAIN b : p \in DOMAIN f /\ p \notin DOMAIN m}
                         \ (UnderAll(moved) \cup Fresh(e)
                            \cup UnderAll(s.delL \cup s.delR))
    IN
    [ local  |-> {p \in torn(mL) : ~(p \in Fresh(e) /\ mL[p].k = "l")},
      remote |-> torn(mR),
      goneL  |-> gaps(mL, e.L, fL),
      goneR  |-> gaps(mR, e.R, fR) ]

(* P13: a sync that is done again after one that was interrupted leads to what *)
(* that one would have led to.  e is the one that was interrupted.           *)
Recovery(e, e2) ==
    LET f  == [e EXCEPT !.nn = e.nn @@ e2.nn]
        s  == Predict(f)
        changed(a, b) == {p \in (DOMAIN a) \cup DOMAIN b : At(a, p) # At(b, p)}
        due == {p \in s.trash : Has(e.R, p)}
        drop == UnderAll(s.drop \cup Predict(e2).drop)
        new  == Cardinality((DOMAIN e2.X2) \ DOMAIN e.X)
        \* What was moved to the trash right before the interruption, and has
        \* the modification time from before that.
        late == {n \in (DOMAIN e.X2) \ DOMAIN e.X :
                   e.cfg.period > 0 /\ e.X2[n].age > e.cfg.period}
        stamp == Cardinality(late) = 1 /\ new + 1 = Cardinality(due)
    IN
    [ fails   |-> If(e2.res # "ok", {e2.res}),
      \* What everyone excludes may be removed by either sync.
      \* Nor is an excluded file uploaded once one of its versions was renamed.
      remote  |-> changed(e2.R2, s.R)
                  \ (drop \cup (e.ex \cap (s.older \cup s.newer))
                           \cup (e2.ex \cap Fresh(f))),
      local   |-> {p \in changed(e2.L2, s.L) :
                     ~(Has(s.R, p) /\ s.R[p].k \in {"f", "l"}
                       /\ (At(e2.L2, p) \in {<<"p">>, At(s.R, p)}))}
                  \ ({f.nn[p] : p \in {q \in DOMAIN f.nn : Has(e.L, q)
                                             /\ e.L[q].k = "p"}}
                     \cup drop),
      trash   |-> IF e.cfg.period = 0 \/ stamp THEN {} ELSE
                  If(new < Cardinality(due), due),
      stamp   |-> If(stamp, late) ]

-----------------------------------------------------------------------------
(* P07: emptying the trash removes it all, and nothing else. *)
Emptied(e) ==
    [ fails |-> If(e.res # "ok", {e.res}),
      kept  |-> DOMAIN e.X2,
      other |-> If(<<e.L, e.R, e.K, e.D>> # <<e.L2, e.R2, e.K2, e.D2>>,
                   {"changed"}) ]

-----------------------------------------------------------------------------
(* P14, P15: setting up a profile. *)

\* Whether an init command can be carried out.
InitAllowed(e) == /\ \A x \in DOMAIN e.facts : e.facts[x] = "ok"
                  /\ e.cfg.st # "initialized"

Setup(e) ==
    LET s == IF e.addr THEN InitRemote(e.L, e.R, e.D, e.now)
             ELSE InitLocal(e.L, e.ex, e.now)
        diff(f, g) == {p \in (DOMAIN f) \cup DOMAIN g : At(f, p) # At(g, p)}
        rows(f, g) == {p \in (DOMAIN f) \cup DOMAIN g :
                         \/ p \notin DOMAIN f \/ p \notin DOMAIN g
                         \/ f[p] # g[p]}
    IN
    IF ~InitAllowed(e) THEN [none |-> {}] ELSE
    [ fails   |-> If(e.res # "ok", {e.res}),
      status  |-> If(e.cfg2.st # "initialized", {e.cfg2.st}),
      shared  |-> If(~e.U2, {"not set up"}),
      local   |-> diff(e.L2, s.L),
      remote  |-> diff(e.R2, s.R),
      profile |-> rows(e.K2, s.K),
      \* Rows that were already wrong are left to the next sync.
      rows    |-> {p \in rows(e.D2, s.D) :
                     ~(p \in DOMAIN e.D /\ Has(e.R, p)
                       /\ e.D[p].d # IsDir(e.R[p]))},
      trash   |-> If(~SameTrash(e), {"changed"}),
      time    |-> If(e.cfg2.last # e.now, {e.cfg2.last}) ]

Unchanged(e) ==
    [ local  |-> {p \in (DOMAIN e.L) \cup DOMAIN e.L2 : At(e.L, p) # At(e.L2, p)},
      remote |-> {p \in (DOMAIN e.R) \cup DOMAIN e.R2 : At(e.R, p) # At(e.R2, p)},
      rows   |-> If(e.K # e.K2 \/ e.D # e.D2, {"rows"}),
      trash  |-> If(~SameTrash(e), {"trash"}),
      status |-> If(e.cfg.st # e.cfg2.st \/ e.cfg.last # e.cfg2.last,
                    {e.cfg2.st}) ]

-----------------------------------------------------------------------------
(* P20: clients agree once all of them have synced.                          *)
\* again: this client has just synced.  once, twice: how often every client
\* has, since anything was changed.
Settling(e, again, once, twice, near) ==
    LET change(f, g) == {p \in (DOMAIN f) \cup DOMAIN g : At(f, p) # At(g, p)} \ near
        row(f, g)    == {p \in (DOMAIN f) \cup DOMAIN g :
                           \/ p \notin DOMAIN f \/ p \notin DOMAIN g
                           \/ f[p] # g[p]} \ near
        still == again \/ twice
        \* A directory that was deleted comes back if there's something of
        \* this client in it that isn't synced.
        kept  == Up({p \in DOMAIN e.L : e.L[p].k = "l" /\ e.L[p].u})
        back  == IF still THEN {}
                 ELSE kept \cup {e.nn[p] : p \in kept \cap DOMAIN e.nn}
        \* Whether all of a directory is kept may be noted one sync later.
        \* The size of excluded files may have changed what there's space for.
        plain(K) == [p \in DOMAIN K |-> IF K[p].d \/ near # {}
                                        THEN [K[p] EXCEPT !.l = TRUE] ELSE K[p]]
        placed(p) == near # {} /\ Has(e.L, p) /\ Has(e.L2, p)
                     /\ \/ e.L[p].k = "p" /\ At(e.L2, p) = At(e.R, p)
                        \/ e.L2[p].k = "p" /\ At(e.L, p) = At(e.R, p)
    IN
    [ local   |-> IF still THEN {p \in change(e.L, e.L2) : ~placed(p)} ELSE {},
      remote  |-> IF still \/ once THEN change(e.R, e.R2) \ back ELSE {},
      profile |-> IF still THEN row(plain(e.K), plain(e.K2)) ELSE {},
      shared  |-> IF still THEN row(e.D, e.D2)
                  \* Each client notices that a path has another type.
                  ELSE IF once
                  THEN row([p \in DOMAIN e.D |-> e.D[p].d],
                           [p \in DOMAIN e.D2 |-> e.D2[p].d]) \ back
                  ELSE {},
      \* Nobody has a file of their own any more, or an old version.
      apart   |-> IF ~twice THEN {} ELSE
                  {p \in (DOMAIN e.L2) \ near :
                     /\ ~(e.L2[p].k = "l" /\ (e.L2[p].u \/ (Has(e.R2, p) /\ e.R2[p].u)))
                     /\ e.L2[p].k # "p"
                     /\ At(e.L2, p) # At(e.R2, p)} ]

Refusal(e) ==
    IF InitAllowed(e) THEN [fails |-> If(e.res # "ok", {e.res})] ELSE
    [ accepted |-> If(e.res = "ok", {"ok"}),
      crash    |-> If(e.res \notin {"ok", "Error", "InputError", "FileParseError",
                                    "StatusError"}, {e.res}) ]
    @@ Unchanged(e)

-----------------------------------------------------------------------------
(* P16: taking a profile apart. *)
Reset(e) ==
    LET take    == ~e.bare
        refused == \/ e.cfg.st # "initialized"
                   \/ take /\ ~e.U
                   \/ take /\ ~e.keep
                      /\ ResetRefused(e.L, e.R, e.K, e.D, e.cfg)
        \* With no remote directory there is nothing to compare with.
        want    == ResetLocal(e.L, e.R, e.K, e.cfg, take)
    IN
    IF refused THEN
      [ accepted |-> If(e.res = "ok", {"ok"}),
        crash    |-> If(e.res \notin {"ok", "Error", "InputError", "RemoteError",
                                      "FileTransferError"}, {e.res}) ]
      @@ Unchanged(e)
    ELSE
      [ fails   |-> If(e.res # "ok", {e.res}),
        local   |-> {p \in (DOMAIN e.L2) \cup DOMAIN want :
                       At(e.L2, p) # At(want, p)},
        remote  |-> IF take /\ ~e.keep THEN DOMAIN e.R2
                    ELSE {p \in (DOMAIN e.R) \cup DOMAIN e.R2 :
                            At(e.R, p) # At(e.R2, p)},
        shared  |-> If(e.U2 # (e.U /\ ~(take /\ ~e.keep)), {"shared"}),
        rows    |-> IF take /\ ~e.keep THEN DOMAIN e.D2
                    ELSE If(e.D2 # e.D, {"rows"}),
        trash   |-> IF take /\ ~e.keep THEN DOMAIN e.X2
                    ELSE If(~SameTrash(e), {"trash"}),
        status  |-> If(e.cfg2.st # "none", {e.cfg2.st}) ]

-----------------------------------------------------------------------------
(* P17: a set-up that was interrupted. *)

Nothing == [none |-> {}]

\* What there is at the time of the interruption.
InitStopped(e) ==
    LET s == IF e.addr THEN InitRemote(e.L, e.R, e.D, e.now)
             ELSE InitLocal(e.L, e.ex, e.now)
        neither(b, m, f) == {p \in (DOMAIN b) \cup DOMAIN m :
                               At(m, p) \notin {At(b, p), At(f, p)}}
    IN
    \* A file may be missing for a moment once it's in the remote directory.
    [ local  |-> {p \in neither(e.L, e.L2, s.L) :
                    Has(e.L2, p) \/ At(e.R2, p) # At(e.L, p)},
      remote |-> neither(e.R, e.R2, s.R),
      trash  |-> If(~SameTrash(e), {"changed"}),
      \* A file that only leads to the remote directory is there.
      leads  |-> {p \in DOMAIN e.L2 : e.L2[p].k = "p" /\ ~Has(e.R2, p)
                                      /\ e.L[p].k # "p"} ]
    @@ (IF e.res = "ok" \/ e.cfg2.st = "initialized"
        THEN [x \in DOMAIN Setup(e) \ {"fails"} |-> Setup(e)[x]] ELSE Nothing)

\* Doing it again after that.  o is the one that was interrupted.
InitResumed(o, e) ==
    LET whole == [o EXCEPT !.L2 = e.L2, !.R2 = e.R2, !.K2 = e.K2, !.X2 = e.X2,
                           !.cfg2 = e.cfg2, !.U2 = e.U2, !.res = e.res]
        \* Rows may be from either time.
        then  == [whole EXCEPT !.D2 = [p \in DOMAIN e.D2 |->
                    IF e.D2[p].s = e.now THEN [e.D2[p] EXCEPT !.s = o.now]
                    ELSE e.D2[p]]]
        r     == Setup(then)
    IN
    IF e.cfg.st = "initialized" THEN Refusal(e)
    ELSE [x \in DOMAIN r \ {"time"} |-> r[x]]
         @@ [time |-> If(e.cfg2.last # e.now, {e.cfg2.last})]

\* A profile that isn't completely set up can't be used.
Refused(e) ==
    [ accepted |-> If(e.res = "ok", {"ok"}) ] @@ Unchanged(e)

-----------------------------------------------------------------------------
(* P18: a reset that was interrupted. *)
ResetStopped(e) ==
    LET want == ResetLocal(e.L, e.R, e.K, e.cfg, ~e.bare)
        drop == ~e.bare /\ ~e.keep
        real(t) == {p \in DOMAIN t : t[p].k # "p"}
        cut  == {p \in DOMAIN e.R : At(e.R2, p) # At(e.R, p)}
    IN
    \* A link that leads to the remote directory is retrieved and removed again.
    [ local  |-> {p \in (DOMAIN e.L) \cup DOMAIN e.L2 :
                    At(e.L2, p) \notin {At(e.L, p), At(want, p)}
                      \cup (IF Has(e.R, p) /\ e.R[p].r /\ ~e.bare
                            THEN {At(e.R, p)} ELSE {})},
      remote |-> ((DOMAIN e.R2) \ DOMAIN e.R)
                 \cup {p \in cut : ~drop \/ Has(e.R2, p)},
      \* Nothing is removed before all of it was retrieved, nor before other
      \* clients can tell that the remote directory isn't in use any more.
      early  |-> IF cut = {} THEN {} ELSE
                 {p \in real(want) : At(e.L2, p) # At(want, p)}
                 \cup If(e.U2, {"shared"}),
      \* Every local file is there until all of it is done.
      done   |-> IF e.cfg2.st = "initialized" THEN {} ELSE
                 {p \in (DOMAIN want) \cup DOMAIN e.L2 :
                    At(e.L2, p) # At(want, p)},
      status |-> If(e.cfg2.st \notin {"initialized", "bare", "none"},
                    {e.cfg2.st}) ]
    @@ (IF e.res = "ok" THEN Reset(e) ELSE Nothing)
=============================================================================
