--------------------------- MODULE ZielenDaemonMC ---------------------------
(***************************************************************************)
(* The daemon together with a user who opens files and with syncs that use  *)
(* the database while it runs.                                              *)
(*                                                                          *)
(* What the user did is remembered apart from what the daemon knows, so     *)
(* that the two can be compared.                                            *)
(***************************************************************************)
EXTENDS ZielenDaemon, TLC, Json, IOUtils

Opt == JsonDeserialize(IOEnv.OPTIONS)
List(a) == {a[x] : x \in DOMAIN a}

Ops      == List(Opt.ops)
MaxSteps == Opt.steps
\* A mistake that the daemon makes.
Mistake  == Opt.mistake

Paths == {"a", "d/b"}
Interval == 300000
Half == 1

VARIABLES
    s,        \* what the daemon knows
    now,
    locked,   \* whether a sync is using the database
    opened,   \* path -> how often it was opened, apart from repetitions
    counted,  \* path -> how much has been added to its priority
    recent,   \* path -> when it was last opened, apart from repetitions
    reduced,  \* when priorities were reduced
    started,  \* when syncs were started
    hist

vars == <<s, now, locked, opened, counted, recent, reduced, started, hist>>

Began == 1000000

Did(op, arg) == hist' = Append(hist, <<op, arg>>)

Access(p) ==
    /\ "access" \in Ops
    /\ s' = [s EXCEPT !.queue = Append(@, <<p, now>>)]
    /\ IF p \in DOMAIN recent /\ now <= recent[p] + Cooldown
       THEN UNCHANGED <<opened, recent>>
       ELSE /\ opened' = [opened EXCEPT ![p] = @ + 1]
            /\ recent' = Put(recent, p, now)
    /\ Did("access", p)
    /\ UNCHANGED <<now, locked, counted, reduced, started>>

Wait(d) ==
    /\ "wait" \in Ops
    /\ hist[Len(hist)][1] # "wait"
    /\ now' = now + d
    /\ Did("wait", d)
    /\ UNCHANGED <<s, locked, opened, counted, recent, reduced, started>>

Wrong(r) ==
    CASE Mistake = "forget" -> [r EXCEPT !.pend = Empty]
      [] Mistake = "cool" -> [r EXCEPT !.cool = Empty]
      [] OTHER -> r

Work ==
    /\ "turn" \in Ops
    /\ LET c == Count(s)
           r == Turn(s, now + 3000, locked, Half)
       IN
       /\ s' = Wrong(r)
       /\ counted' = IF locked THEN counted
                     ELSE [p \in Paths |-> counted[p] + Get(c.pend, p)]
       /\ reduced' = IF r.adj = s.adj THEN reduced ELSE Append(reduced, r.adj)
    /\ now' = now + 3000
    /\ Did("turn", "")
    /\ UNCHANGED <<locked, opened, recent, started>>

Try ==
    /\ "try" \in Ops
    /\ IF May(s, now + 3000)
       THEN /\ started' = Append(started, now + 3000)
            /\ s' = [s EXCEPT !.attempt = now + 3000]
       ELSE UNCHANGED <<started, s>>
    /\ now' = now + 3000
    /\ Did("try", "")
    /\ UNCHANGED <<locked, opened, counted, recent, reduced>>

\* A sync starts to use the database.
Begin ==
    /\ "sync" \in Ops
    /\ ~locked
    /\ locked' = TRUE
    /\ Did("begin", "")
    /\ UNCHANGED <<s, now, opened, counted, recent, reduced, started>>

End ==
    /\ locked
    /\ locked' = FALSE
    /\ s' = [s EXCEPT !.last = now]
    /\ Did("end", "")
    /\ UNCHANGED <<now, opened, counted, recent, reduced, started>>

Jump ==
    /\ "jump" \in Ops
    /\ hist[Len(hist)][1] # "jump"
    /\ now' = now + Adjust + 1000
    /\ Did("jump", "")
    /\ UNCHANGED <<s, locked, opened, counted, recent, reduced, started>>

\* What the daemon hasn't stored is forgotten.
Restart ==
    /\ "restart" \in Ops
    /\ s' = [s EXCEPT !.queue = << >>, !.cool = Empty, !.pend = Empty,
                      !.attempt = s.last]
    /\ opened' = counted
    /\ recent' = Empty
    \* It doesn't know of a sync that failed.
    /\ started' = << >>
    /\ Did("restart", "")
    /\ UNCHANGED <<now, locked, counted, reduced>>

Init ==
    /\ s = [rows |-> [p \in Paths |-> [d |-> FALSE, p |-> 0]],
            queue |-> << >>, cool |-> Empty, pend |-> Empty, adj |-> Began,
            last |-> Began, attempt |-> Began, intvs |-> {Interval},
            halves |-> {Half}]
    /\ now = Began
    /\ locked = FALSE
    /\ opened = [p \in Paths |-> 0]
    /\ counted = [p \in Paths |-> 0]
    /\ recent = Empty
    /\ reduced = << >>
    /\ started = << >>
    /\ hist = <<<<"start", "">>>>

Next ==
    /\ Len(hist) <= MaxSteps
    /\ \/ \E p \in Paths : Access(p)
       \/ \E d \in {400, 1400} : Wait(d)
       \/ Work \/ Try \/ Begin \/ End \/ Jump \/ Restart

Spec == Init /\ [][Next]_vars

-----------------------------------------------------------------------------
\* What would be counted if the daemon went on.
Expected(p) ==
    LET c == Count(s) IN counted[p] + Get(c.pend, p)

\* Nothing that was opened is forgotten or counted twice.
Counted == \A p \in Paths : Expected(p) = opened[p]

\* The priorities are what was counted, reduced by half in a half-life.
Bounded == \A p \in Paths :
    /\ s.rows[p].p <= Unit * counted[p]
    /\ reduced = << >> => s.rows[p].p = Unit * counted[p]

Spaced(times, gap) == \A n \in 2..Len(times) : times[n] - times[n - 1] >= gap

Correct ==
    IF Counted /\ Bounded /\ Spaced(reduced, Adjust) /\ Spaced(started, Interval)
    THEN TRUE
    ELSE Assert(FALSE, <<"SPECIFICATION", hist>>)

Emit ==
    IF Len(hist) > MaxSteps /\ hist[Len(hist)][1] \in {"turn", "try"}
    THEN PrintT(<<"CASE", ToJson(hist)>>) ELSE TRUE
=============================================================================
