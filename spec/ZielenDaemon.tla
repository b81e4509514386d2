---------------------------- MODULE ZielenDaemon ----------------------------
(***************************************************************************)
(* The daemon: what it counts and when it starts a sync.                    *)
(*                                                                          *)
(* The state is a record with                                               *)
(*   rows     path -> [d: is it a directory, p: its priority * Unit]        *)
(*   queue    what was opened and hasn't been looked at: <<path, time>>     *)
(*   cool     path -> the time at which an access was last counted          *)
(*   pend     path -> how much is yet to be added to its priority           *)
(*   adj      the time at which priorities were last reduced                *)
(*   last     the time of the last sync                                     *)
(*   attempt  the time at which the last sync that it started ended         *)
(*   intvs    the intervals between syncs that it may know of               *)
(*   halves   the half-lives that it may know of                            *)
(* Times are in ms.                                                         *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets

Unit     == 1000
Cooldown == 1000
Adjust   == 600000

\* What remains of a priority after 10 minutes, in 1/10000, by half-life.
Factor(half) == CASE half = 1 -> 8909
                  [] half = 2 -> 9439
                  [] half = 6 -> 9809
                  [] half = 120 -> 9990
                  [] OTHER -> 10000

Scaled(p, half) == (p * Factor(half)) \div 10000

Get(f, x) == IF x \in DOMAIN f THEN f[x] ELSE 0
Put(f, x, v) == [y \in DOMAIN f \cup {x} |-> IF y = x THEN v ELSE f[y]]
Empty == [x \in {} |-> 0]

\* A file that is known is counted unless it was a moment ago.
Counts(s, path, time) ==
    /\ path \in DOMAIN s.rows /\ ~s.rows[path].d
    /\ (path \in DOMAIN s.cool => time > s.cool[path] + Cooldown)

RECURSIVE Count(_)
Count(s) ==
    IF s.queue = << >> THEN s
    ELSE LET e == Head(s.queue)
             r == [s EXCEPT !.queue = Tail(s.queue)]
         IN Count(IF Counts(s, e[1], e[2])
                  THEN [r EXCEPT !.pend = Put(s.pend, e[1], Get(s.pend, e[1]) + 1),
                                 !.cool = Put(s.cool, e[1], e[2])]
                  ELSE r)

Due(s, now) == now >= s.adj + Adjust

\* The priorities after what was counted has been added.
Priority(s, path, now, half) ==
    (IF Due(s, now) THEN Scaled(s.rows[path].p, half) ELSE s.rows[path].p)
    + Unit * Get(s.pend, path)

Files(s) == {p \in DOMAIN s.rows : ~s.rows[p].d}

\* The daemon opens a file: someone else can use the database or can't.
Turn(s, now, locked, half) ==
    LET c == Count(s) IN
    IF locked THEN c
    ELSE [c EXCEPT
        !.rows = [p \in DOMAIN s.rows |->
            [d |-> s.rows[p].d, p |-> Priority(c, p, now, half)]],
        !.pend = Empty,
        !.adj = IF Due(s, now) THEN now ELSE s.adj]

\* When a sync has to be started, and when it may be.
Must(s, now) ==
    \A v \in s.intvs : now >= s.attempt + v /\ now >= s.last + v
May(s, now) == \E v \in s.intvs : now >= s.attempt + v
=============================================================================
