----------------------------- MODULE ZielenLock -----------------------------
(***************************************************************************)
(* Commands that are started on one profile at any time, also while others  *)
(* are running or have been killed.                                         *)
(*                                                                          *)
(* A command first takes the lock of the profile or is refused, then looks  *)
(* at the profile, and then works on it.  TLC explores all schedules, and   *)
(* writes them out so that they can be played with the real program.        *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, IOUtils

Opt == JsonDeserialize(IOEnv.OPTIONS)
List(a) == {a[x] : x \in DOMAIN a}

Procs    == 1..Opt.procs
Kinds    == List(Opt.kinds)
MaxSteps == Opt.steps
\* Whether the profile is looked at before the lock is taken, which is wrong.
Early    == Opt.early

VARIABLES
    pc,       \* what each process is doing
    kind,     \* the command that it runs
    saw,      \* the state of the profile that it acts on
    holder,   \* who has the lock
    status,   \* the state of the profile
    version,  \* how many commands have changed it
    result,
    hist

vars == <<pc, kind, saw, holder, status, version, result, hist>>

Now == <<status, version>>

\* Whether a command can do something with a profile in a state.
Fits(k, st) == IF k = "init" THEN st # "initialized" ELSE st = "initialized"

After(k) == CASE k = "init" -> "initialized"
              [] k \in {"keep", "drop", "bare"} -> "none"
              [] OTHER -> status

Start(p, k) ==
    /\ pc[p] = "new" /\ {q \in Procs : q < p /\ pc[q] = "new"} = {}
    \* There must be a profile to select.
    /\ (k # "init" => status # "none") = TRUE
    /\ pc' = [pc EXCEPT ![p] = "waiting"]
    /\ kind' = [kind EXCEPT ![p] = k]
    /\ saw' = [saw EXCEPT ![p] = IF Early THEN Now ELSE << >>]
    /\ hist' = Append(hist, <<"start", p, k>>)
    /\ UNCHANGED <<holder, status, version, result>>

End(p, r) ==
    /\ pc' = [pc EXCEPT ![p] = "ended"]
    /\ result' = [result EXCEPT ![p] = r]

Lock(p) ==
    /\ pc[p] = "waiting"
    /\ LET s == IF Early THEN saw[p] ELSE Now IN
       IF holder # 0
       THEN End(p, "refused") /\ UNCHANGED <<saw, holder>>
       ELSE IF ~Fits(kind[p], s[1])
       THEN End(p, "unfit") /\ UNCHANGED <<saw, holder>>
       ELSE /\ holder' = p
            /\ pc' = [pc EXCEPT ![p] = "working"]
            /\ saw' = [saw EXCEPT ![p] = s]
            /\ UNCHANGED result
    /\ hist' = Append(hist, <<"lock", p, "">>)
    /\ UNCHANGED <<kind, status, version>>

Finish(p) ==
    /\ pc[p] = "working"
    /\ End(p, "ok")
    /\ holder' = 0
    /\ status' = After(kind[p])
    /\ version' = version + 1
    /\ hist' = Append(hist, <<"finish", p, "">>)
    /\ UNCHANGED <<kind, saw>>

Kill(p) ==
    /\ pc[p] \in {"waiting", "working"}
    /\ End(p, "killed")
    /\ holder' = IF holder = p THEN 0 ELSE holder
    /\ IF holder = p
       THEN /\ status' = IF kind[p] = "init" THEN "partial" ELSE status
            /\ version' = version + 1
       ELSE UNCHANGED <<status, version>>
    /\ hist' = Append(hist, <<"kill", p, "">>)
    /\ UNCHANGED <<kind, saw>>

\* The user works on the files when no command does.
Edit ==
    /\ holder = 0
    /\ hist[Len(hist)][1] # "edit"
    /\ version' = version + 1
    /\ hist' = Append(hist, <<"edit", 0, "">>)
    /\ UNCHANGED <<pc, kind, saw, holder, status, result>>

Init ==
    /\ pc = [p \in Procs |-> "new"]
    /\ kind = [p \in Procs |-> ""]
    /\ saw = [p \in Procs |-> << >>]
    /\ holder = 0
    /\ status \in {"initialized", "none"}
    /\ version = 0
    /\ result = [p \in Procs |-> ""]
    /\ hist = <<<<"begin", 0, status>>>>

Next ==
    /\ Len(hist) <= MaxSteps
    /\ \/ \E p \in Procs : Lock(p) \/ Finish(p) \/ Kill(p)
       \/ \E p \in Procs, k \in Kinds : Start(p, k)
       \/ Edit

Spec == Init /\ [][Next]_vars

-----------------------------------------------------------------------------
\* At most one command works on the profile.
Alone == \A p, q \in Procs :
    pc[p] = "working" /\ pc[q] = "working" => p = q

\* It acts on the state that the profile has.
Current == \A p \in Procs : pc[p] = "working" => saw[p] = Now

\* Nobody is refused because of one that has ended.
Released == holder # 0 => pc[holder] = "working"

Correct ==
    IF Alone /\ Current /\ Released THEN TRUE
    ELSE Assert(FALSE, <<"SPECIFICATION", hist>>)

Emit ==
    IF Len(hist) > 3 /\ \A p \in Procs : pc[p] \in {"new", "ended"}
    THEN PrintT(<<"CASE", ToJson(hist)>>) ELSE TRUE
=============================================================================
