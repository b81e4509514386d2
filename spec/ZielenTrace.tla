----------------------------- MODULE ZielenTrace -----------------------------
(***************************************************************************)
(* Checks recorded executions of the program.                               *)
(*                                                                          *)
(* The file named by the environment variable TRACES holds executions.      *)
(* Each is a sequence of commands with the state that was observed before   *)
(* and after each of them.  Every execution is an initial state, every      *)
(* command is a step, and every property is evaluated at every step.        *)
(* Failures are printed rather than stopping at the first one.              *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, IOUtils

Batch == JsonDeserialize(IOEnv.TRACES)
Traces == Batch.traces
Wanted == {Batch.wanted[i] : i \in DOMAIN Batch.wanted}

VARIABLES t, i, live

vars == <<t, i, live>>

Trace == Traces[t]

Z == INSTANCE ZielenProps WITH T <- Traces[t].T

Pool(n) == Traces[t].pool[n]
Set(a)  == {a[x] : x \in DOMAIN a}

Status(state, j) == LET m == Pool(state.M[j]) IN <<m.st, m.last>>

Observation(ev) ==
    LET c == ev.c IN
    [ L  |-> Pool(ev.pre.L[c]),  L2 |-> Pool(ev.post.L[c]),
      R  |-> Pool(ev.pre.R),     R2 |-> Pool(ev.post.R),
      K  |-> Pool(ev.pre.K[c]),  K2 |-> Pool(ev.post.K[c]),
      D  |-> Pool(ev.pre.D),     D2 |-> Pool(ev.post.D),
      X  |-> Pool(ev.pre.X),     X2 |-> Pool(ev.post.X),
      cfg |-> Pool(ev.pre.M[c]), cfg2 |-> Pool(ev.post.M[c]),
      ex |-> Set(ev.ex), exall |-> Set(ev.exr), rank |-> Trace.rank,
      nn |-> ev.nn, now |-> ev.t, res |-> ev.res,
      U |-> ev.pre.U, U2 |-> ev.post.U,
      keep |-> ev.keep, bare |-> ev.bare, addr |-> ev.addr,
      facts |-> IF "facts" \in DOMAIN ev THEN ev.facts ELSE << >>,
      others  |-> [j \in (1..Trace.n) \ {c} |->
                     <<ev.pre.L[j], ev.pre.K[j], Status(ev.pre, j)>>],
      others2 |-> [j \in (1..Trace.n) \ {c} |->
                     <<ev.post.L[j], ev.post.K[j], Status(ev.post, j)>>] ]

Locals(state) == [c \in 1..Trace.n |-> Pool(state.L[c])]

-----------------------------------------------------------------------------
(* Contents that must still be somewhere. *)

\* What the user threw away with the trash, or let expire.
Discarded(ev) ==
    LET X == Pool(ev.pre.X)
        of(n) == {X[n].tree[q].c : q \in DOMAIN X[n].tree}
    IN  IF ev.a = "empty" \/ (ev.a = "reset" /\ ~ev.keep /\ ~ev.bare) THEN UNION {of(n) : n \in DOMAIN X}
        ELSE IF ev.a \in {"sync", "crash"}
        THEN UNION {of(n) : n \in {m \in DOMAIN X :
                Z!Expired(Pool(ev.pre.M[ev.c]), X[m])}}
        ELSE {}

Kept(ev) == ((live \ Set(ev.kill)) \cup Set(ev.add)) \ Discarded(ev)

Lost(ev) ==
    Kept(ev) \ Z!Present(Locals(ev.post), Pool(ev.post.R), Pool(ev.post.X))

-----------------------------------------------------------------------------
(* Commands that are watched while they run or that are interrupted. *)

Mids(ev) == IF "mids" \in DOMAIN ev THEN {ev.mids[x] : x \in DOMAIN ev.mids} ELSE {}

\* The union of records of sets.
Merge(S, names) == [n \in names |-> UNION {r[n] : r \in S}]

MidLost(ev) ==
    UNION {Kept(ev) \ Z!Present(Locals(m), Pool(m.R), Pool(m.X)) : m \in Mids(ev)}

Moments(ev, e, s) ==
    LET c == ev.c
        all == {Z!Atomic(e, s, e.L2, e.R2, Pool(m.L[c]), Pool(m.R)) : m \in Mids(ev)}
    IN  Merge(all, {"local", "remote", "goneL", "goneR"})

\* An interrupted sync.
Stopped(ev, e, s) == Z!Atomic(e, s, s.L, s.R, e.L2, e.R2)

\* Whether a command has been interrupted before this one.
AfterCrash == \E x \in 1..(i - 1) : Trace.ev[x].a = "crash"

Recovered(ev, e) ==
    IF "orig" \in DOMAIN ev
    THEN LET o == Observation(Trace.ev[ev.orig]) IN Z!Recovery(o, e)
    ELSE [none |-> {}]

\* P19: a command that's run while another one works on the profile.
Exclusive(ev, e, s) ==
    LET st == e.cfg.st IN
    IF "held" \notin DOMAIN ev THEN [none |-> {}]
    ELSE IF ev.held THEN [overlap |-> IF ev.res = "ok" THEN {ev.a} ELSE {}]
                         @@ Z!Unchanged(e)
    ELSE IF ev.res = "StatusError" THEN [blocked |-> {ev.a}]
    ELSE IF AfterCrash THEN [none |-> {}]
    ELSE IF ev.a = "init"
    THEN IF st = "initialized" THEN Z!Refusal(e) ELSE Z!Setup(e)
    ELSE IF st # "initialized"
    THEN [accepted |-> IF ev.res = "ok" THEN {ev.a} ELSE {}] @@ Z!Unchanged(e)
    ELSE IF ev.a = "sync"
    THEN [fails |-> IF ev.res # "ok" THEN {ev.res} ELSE {}] @@ Z!Outcome(e, s)
    ELSE IF ev.a = "empty" THEN Z!Emptied(e)
    ELSE Z!Reset(e)

\* P20: how many of the commands right before this one were syncs that went
\* well and between which nobody did anything.
RECURSIVE Calm(_)
Calm(j) ==
    IF j > 1 /\ Trace.ev[j].idle /\ Trace.ev[j - 1].a = "sync"
       /\ Trace.ev[j - 1].res = "ok"
    THEN 1 + Calm(j - 1) ELSE 0

\* The paths that excluded files are involved in, which may need one more sync.
Excluding(j) ==
    LET all   == UNION {Set(Trace.ev[x].ex) \cup Set(Trace.ev[x].exr) : x \in j..i}
        near  == Z!Up(Z!UnderAll(all))
        named == UNION {{Trace.ev[x].nn[q] : q \in (DOMAIN Trace.ev[x].nn) \cap near}
                        : x \in 1..i}
    IN  near \cup Z!UnderAll(named)

Settled(ev, e) ==
    LET calm  == Calm(i)
        by(n) == {Trace.ev[j].c : j \in (i - n)..(i - 1)}
        all   == 1..Trace.n
    IN
    Z!Settling(e,
        \* The same client has just synced.
        calm >= 1 /\ Trace.ev[i - 1].c = ev.c,
        \* Every client has synced.
        \E n \in 1..calm : by(n) = all,
        \* Every client has synced, and again since then.
        \E n \in 1..calm : by(n) = all /\
            \E m \in (n + 1)..calm :
                {Trace.ev[j].c : j \in (i - m)..(i - n - 1)} = all,
        Excluding(i - calm))

Interrupted(cmd) == Trace.ev[1].a = "crash" /\ Trace.ev[1].cmd = cmd

\* Any command after one that was interrupted.
Later(ev, e, s) ==
    LET st == e.cfg.st IN
    IF ev.a = "init" THEN Z!Setup(e)
    ELSE IF st # "initialized" THEN Z!Refused(e)
    ELSE IF ev.a = "reset" THEN Z!Reset(e)
    ELSE IF ~e.U THEN Z!Refused(e)
    ELSE IF ev.a = "sync"
    THEN [fails |-> IF ev.res # "ok" THEN {ev.res} ELSE {}] @@ Z!Outcome(e, s)
    ELSE Z!Nothing

\* P17, P18: setting up and resetting a profile, when interrupted.
Setting(ev, e, s) ==
    IF ~Interrupted("init") THEN Z!Nothing
    ELSE [lost |-> Lost(ev)] @@
         (IF i = 1 THEN Z!InitStopped(e)
          ELSE IF "orig" \in DOMAIN ev
          THEN Z!InitResumed(Observation(Trace.ev[ev.orig]), e)
          ELSE Later(ev, e, s))

Resetting(ev, e, s) ==
    IF ~Interrupted("reset") THEN Z!Nothing
    ELSE [lost |-> Lost(ev)] @@
         (IF i = 1 THEN Z!ResetStopped(e) ELSE Later(ev, e, s))

-----------------------------------------------------------------------------
(* P30: the remote directory isn't available while a command runs. *)
Away(ev) == "away" \in DOMAIN ev
AfterAway == \E x \in 1..(i - 1) : Away(Trace.ev[x])

Unavailable(ev, e) ==
    IF ev.a = "reset" /\ ev.bare THEN Z!Reset(e)
    ELSE [ accepted |-> IF ev.res = "ok" THEN {ev.a} ELSE {},
           crash    |-> IF /\ ev.away \in {"gone", "empty", "stray"}
                          /\ ev.res \notin {"ok", "RemoteError", "Error"} THEN {ev.res} ELSE {},
           stand    |-> IF ~ev.stand THEN {ev.away} ELSE {} ]
         @@ Z!Unchanged(e)

\* Any command once it's available again.
Available(ev, e, s) ==
    IF ev.a = "sync"
    THEN [fails |-> IF ev.res # "ok" THEN {ev.res} ELSE {}] @@ Z!Outcome(e, s)
    ELSE Z!Nothing

-----------------------------------------------------------------------------
(* P29: what is excluded is what the specification of patterns says. *)
G == INSTANCE ZielenGlob

Lines(a) == {a[x] : x \in DOMAIN a}

Globbed(lines, L) ==
    LET tree == [n \in {Trace.name[p] : p \in DOMAIN L} |->
                   \E p \in DOMAIN L : Trace.name[p] = n /\ Z!IsDir(L[p])]
        hits == G!Excluded(lines, tree)
    IN  {p \in DOMAIN L : Trace.name[p] \in hits}

Patterns(ev, e) ==
    IF "pats" \notin DOMAIN ev \/ ev.a # "sync" THEN Z!Nothing
    ELSE IF ev.res # "ok" THEN [fails |-> {ev.res}]
    ELSE
    LET own   == Globbed(Lines(ev.pats.own), e.L)
        every == {p \in DOMAIN e.L2 : \A x \in DOMAIN ev.pats.all :
                    p \in Globbed(Lines(ev.pats.all[x]), e.L2)}
        f == [e EXCEPT !.ex = own, !.exall = every]
        s == Z!Predict(f)
    IN  Z!Exclusion(f, s) @@ Z!Outcome(f, s)

-----------------------------------------------------------------------------
ClausesOf(ev) ==
    LET e == Observation(ev)
        s == Z!Predict(e)
        ok == ev.res = "ok"
        none == [none |-> {}]
        \* A sync that fails does nothing that it should.
        failed == [fails |-> {ev.res}]
    IN
    IF ev.a = "sync" THEN
      [ P01 |-> Z!Agreement(e, s),
        P03 |-> IF ok THEN Z!Conflicts(e, s) ELSE failed,
        P04 |-> IF ok THEN Z!Propagation(e, s) ELSE failed,
        P05 |-> IF ok THEN Z!Deletions(e, s) ELSE failed,
        P06 |-> IF ok THEN Z!Trashing(e, s) ELSE failed,
        P07 |-> IF ok THEN Z!Retention(e, s) ELSE failed,
        P08 |-> IF ok THEN Z!Exclusion(e, s) ELSE failed,
        P09 |-> IF ok THEN Z!Storage(e, s) ELSE failed,
        P10 |-> IF ok THEN Z!Choice(e, s) ELSE failed,
        P11 |-> IF ok THEN Z!Priorities(e, s) ELSE failed,
        P12 |-> IF ok THEN Z!Mirror(e, s) ELSE failed,
        P22 |-> IF ok THEN Z!Symlinks(e, s) ELSE failed,
        P23 |-> IF ok THEN Z!Fidelity(e) ELSE failed,
        P25 |-> IF ok THEN Z!Outcome(e, s) ELSE failed,
        P13 |-> [lost |-> MidLost(ev) \cup (IF AfterCrash THEN Lost(ev) ELSE {})]
                @@ Recovered(ev, e)
                @@ (IF AfterCrash THEN Z!Agreement(e, s) ELSE none),
        P27 |-> [lost |-> IF AfterCrash THEN Lost(ev) ELSE {}] @@ Recovered(ev, e),
        P28 |-> Moments(ev, e, s),
        P20 |-> IF ok THEN Settled(ev, e) ELSE failed,
        P26 |-> Z!Isolation(e) ]
    ELSE IF ev.a = "crash" /\ ev.cmd = "sync" THEN
      [ P13 |-> [lost |-> Lost(ev)],
        \* A sync that says that all is well has done all that it should.
        P27 |-> [lost |-> Lost(ev)]
                @@ (IF ok THEN Z!Outcome(e, s) ELSE none),
        P28 |-> Stopped(ev, e, s),
        P26 |-> Z!Isolation(e) ]
    ELSE IF ev.a = "empty" THEN
      [ P07 |-> Z!Emptied(e), P26 |-> Z!Isolation(e) ]
    ELSE IF ev.a = "init" THEN
      [ P14 |-> Z!Setup(e), P15 |-> Z!Refusal(e), P26 |-> Z!Isolation(e) ]
    ELSE IF ev.a = "reset" THEN
      [ P16 |-> Z!Reset(e), P26 |-> Z!Isolation(e) ]
    ELSE [ P00 |-> none ]

Clauses(ev) ==
    LET e == Observation(ev)
        s == Z!Predict(e)
    IN
    (IF Away(ev) THEN [P26 |-> Z!Isolation(e)] ELSE ClausesOf(ev))
    @@ [ P30 |-> [lost |-> Lost(ev)] @@
                 (IF Away(ev) THEN Unavailable(ev, e)
                  ELSE IF AfterAway THEN Available(ev, e, s)
                  ELSE IF ev.a = "crash" /\ ev.cmd = "sync"
                  THEN Stopped(ev, e, s)
                       @@ (IF ev.res = "ok" THEN Z!Outcome(e, s) ELSE Z!Nothing)
                  ELSE IF AfterCrash THEN Recovered(ev, e) ELSE Z!Nothing),
         P29 |-> IF "P29" \in Wanted THEN Patterns(ev, e) ELSE Z!Nothing,
         P17 |-> Setting(ev, e, s),
         P18 |-> Resetting(ev, e, s),
         P19 |-> IF ev.a = "crash" THEN Z!Nothing ELSE Exclusive(ev, e, s) ]

\* Always true.  (An IF, as TLC would branch at a disjunction in an action.)
Holds(p, n, bad) ==
    IF bad = {} THEN TRUE ELSE PrintT(<<"FAIL", p, n, Trace.id, i, bad>>)

Report(ev) ==
    LET cl == Clauses(ev) IN
    /\ \A p \in (DOMAIN cl) \cap Wanted : \A n \in DOMAIN cl[p] :
          Holds(p, n, cl[p][n])
    /\ "P02" \notin Wanted \/ Holds("P02", "lost", Lost(ev))

Init == t \in DOMAIN Traces /\ i = 1 /\ live = Set(Trace.live)

Next ==
    /\ i <= Len(Trace.ev)
    /\ Report(Trace.ev[i]) = TRUE
    /\ live' = Kept(Trace.ev[i])
    /\ i' = i + 1
    /\ t' = t

Spec == Init /\ [][Next]_vars

\* Every trace is followed to its end.
Done == <>(i = Len(Trace.ev) + 1)
=============================================================================
