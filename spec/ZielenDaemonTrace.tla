------------------------- MODULE ZielenDaemonTrace -------------------------
(***************************************************************************)
(* Checks recorded executions of the daemon against ZielenDaemon.           *)
(*                                                                          *)
(* Every execution is a sequence of what was opened, what the daemon did,   *)
(* and what else happened to the profile, with the priorities and times     *)
(* that were stored after each of them.                                     *)
(***************************************************************************)
EXTENDS ZielenDaemon, TLC, Json, IOUtils

Batch == JsonDeserialize(IOEnv.TRACES)
Traces == Batch.traces
Wanted == {Batch.wanted[i] : i \in DOMAIN Batch.wanted}

VARIABLES t, i, s,
    odd  \* what was a file when it was opened and is a directory now

vars == <<t, i, s, odd>>

Trace == Traces[t]
Rows(ev) == Traces[t].pool[ev.rows]

Near(a, b, d) == a - b <= d /\ b - a <= d

-----------------------------------------------------------------------------
\* The state of the specification after something has happened, with the
\* priorities and times that the program had stored then.
Observed(r, ev) == [r EXCEPT !.rows = Rows(ev), !.adj = ev.adj, !.last = ev.last]

Fresh(ev) == [rows |-> Rows(ev), queue |-> << >>, cool |-> Empty, pend |-> Empty,
              adj |-> ev.adj, last |-> ev.last, attempt |-> ev.last,
              intvs |-> {ev.intv}, halves |-> {ev.half}]

Step(ev) ==
    CASE ev.a = "access" ->
           [s EXCEPT !.queue = IF ev.dir THEN @ ELSE Append(@, <<ev.path, ev.t>>)]
      [] ev.a = "turn" ->
           [Turn(s, ev.t, ev.locked, ev.half) EXCEPT
               !.intvs = IF ev.locked THEN @ ELSE {ev.intv},
               !.halves = IF ev.locked THEN @ ELSE {ev.half}]
      [] ev.a = "start" -> Fresh(ev)
      [] ev.a = "config" ->
           [s EXCEPT !.intvs = @ \cup {ev.intv}, !.halves = @ \cup {ev.half}]
      [] ev.a = "finish" -> [s EXCEPT !.attempt = ev.t]
      [] OTHER -> s

-----------------------------------------------------------------------------
Ancestors(p, rows) ==
    {q \in DOMAIN rows : Len(q) < Len(p) /\ SubSeq(p, 1, Len(q) + 1) = q \o "/"}

\* The immediate children of a directory.
Children(d, rows) ==
    {p \in DOMAIN rows : d \in Ancestors(p, rows)
        /\ \A q \in Ancestors(p, rows) : Len(q) <= Len(d)}

RECURSIVE Sum(_, _)
Sum(ps, rows) ==
    IF ps = {} THEN 0
    ELSE LET p == CHOOSE p \in ps : TRUE IN rows[p].p + Sum(ps \ {p}, rows)

Odd == {d \in odd \cup {s.queue[n][1] : n \in DOMAIN s.queue} :
           d \in DOMAIN s.rows /\ s.rows[d].d}

\* A daemon that works through what was opened.
Worked(ev) ==
    LET c    == Count(s)
        rows == Rows(ev)
        same == DOMAIN rows = DOMAIN s.rows
        hit  == {p \in DOMAIN c.pend : p \in DOMAIN s.rows}
        over == UNION {Ancestors(p, s.rows) : p \in hit} \ Odd
    IN
    IF ~same THEN [count |-> {}, rows |-> {"rows"}]
    ELSE IF ev.locked
    THEN [ \* Nobody else can write, so neither can the daemon.
           rows |-> {p \in DOMAIN rows : rows[p] # s.rows[p]},
           count |-> {},
           adjust |-> IF ev.adj # s.adj THEN {ev.adj} ELSE {} ]
    ELSE [ rows |-> {p \in DOMAIN rows : rows[p].d # s.rows[p].d},
           \* Every access is counted once, and priorities decay.
           count |-> {p \in DOMAIN rows : ~rows[p].d
               /\ \A h \in s.halves : ~Near(rows[p].p, Priority(c, p, ev.t, h), 4)},
           \* Directories have the priority of what is in them.
           dirs |-> {d \in DOMAIN rows : rows[d].d /\
               IF d \in over
               THEN ~Near(rows[d].p, Sum(Children(d, rows), rows), 20)
               ELSE d \notin Odd /\ \A h \in s.halves : ~Near(rows[d].p, Priority(c, d, ev.t, h), 20)},
           adjust |-> IF Due(s, ev.t)
                      THEN IF Near(ev.adj, ev.t, 50) THEN {} ELSE {ev.adj}
                      ELSE IF ev.adj # s.adj THEN {ev.adj} ELSE {} ]

\* A sync keeps what the daemon has stored.
Kept(ev) ==
    LET rows == Rows(ev) IN
    [ keep |-> IF ev.res = "ok"
               THEN {p \in DOMAIN rows \cap DOMAIN s.rows :
                       ~rows[p].d /\ ~s.rows[p].d /\ ~Near(rows[p].p, s.rows[p].p, 2)}
               ELSE {},
      adjust |-> IF ev.adj # s.adj THEN {ev.adj} ELSE {},
      failed |-> IF ev.res = "ok" \/ ev.busy THEN {} ELSE {ev.res} ]

Launched(ev) ==
    [ launch |-> IF ev.launch > 1 THEN {"several"}
                 ELSE IF ev.launch = 1 /\ ~May(Step(ev), ev.t) THEN {"early"}
                 ELSE IF ev.launch = 0 /\ Must(Step(ev), ev.t) THEN {"late"}
                 ELSE {} ]

Quiet(ev) ==
    [ last |-> IF ev.last # s.last THEN {ev.last} ELSE {},
      held |-> IF ev.held THEN {"held"} ELSE {} ]

None == [ none |-> {} ]

Clauses(ev) ==
    CASE ev.a = "died" -> [ died |-> {ev.why} ]
      [] ev.a = "turn" -> Worked(ev) @@ Quiet(ev)
            @@ [ launch |-> IF ev.launch = 0 THEN {} ELSE {"turn"} ]
      [] ev.a = "try" -> Launched(ev) @@ Quiet(ev)
            @@ [ rows |-> IF Rows(ev) = s.rows THEN {} ELSE {"rows"} ]
      [] ev.a = "start" -> [ last |-> IF ev.last # s.last THEN {ev.last} ELSE {} ]
      [] ev.a = "sync" -> Kept(ev)
      [] OTHER -> None

\* Always true.
Holds(n, bad) ==
    IF bad = {} THEN TRUE
    ELSE PrintT(<<"FAIL", "P24", n, Trace.id, i, bad>>)

Report(ev) == LET cl == Clauses(ev) IN \A n \in DOMAIN cl : Holds(n, cl[n])

Init == t \in DOMAIN Traces /\ i = 1 /\ s = Fresh(Trace.ev[1]) /\ odd = {}

Next ==
    /\ i <= Len(Trace.ev)
    /\ Report(Trace.ev[i]) = TRUE
    /\ s' = Observed(Step(Trace.ev[i]), Trace.ev[i])
    /\ odd' = IF Trace.ev[i].a = "turn"
              THEN IF Trace.ev[i].locked THEN Odd ELSE {} ELSE odd
    /\ i' = i + 1
    /\ t' = t

Spec == Init /\ [][Next]_vars
=============================================================================
