----------------------------- MODULE SweepTrace -----------------------------
(* Compares executions recorded from the implementation with Sweep call by   *)
(* call: the implementation is not only one that Triangulation allows, it    *)
(* makes exactly the calls of the algorithm-level specification.  This is    *)
(* stronger than what a user may rely on, so a disagreement is reported as a *)
(* fact about the specification, never as a violation.                       *)
EXTENDS Sweep, Json, IOUtils

Traces == ndJsonDeserialize(IOEnv.TRACES)

VARIABLES tr, pos

vars == <<tvars, svars, tr, pos>>

Init == /\ tr \in 1..Len(Traces)
        /\ pos = 1
        /\ SweepStart([pts |-> Traces[tr].pts, rings |-> Traces[tr].rings, winding |-> Traces[tr].winding, reject |-> None])

Calls == Traces[tr].ev
Event == Calls[pos]

Matches == LET e == Event  c == Head(out) IN
           /\ e.e = (IF phase = "idle" THEN "init" ELSE c.e)
           /\ e.v = c.v

Next == \/ Visit /\ UNCHANGED <<tr, pos>>
        \/ /\ pos <= Len(Calls)
           /\ \/ out # <<>> /\ phase \in {"idle", "open"} /\ Matches /\ Call(Event.r)
              \/ phase = "open" /\ Done /\ Event.e = "build" /\ Finish(Event.r)
              \/ phase = "erred" /\ Event.e = "fail" /\ Finish(Event.r)
              \/ phase \in {"refused", "failed", "built", "spoiled", "unwound"} /\ Event.e = "ret" /\ Finish(Event.r)
           /\ pos' = pos + 1
           /\ tr' = tr

Spec == Init /\ [][Next]_vars

\* The specification follows the recorded calls to their end.
Agrees == \/ pos > Len(Calls)
          \/ phase \in {"idle", "open"} /\ (IF out # <<>> THEN Matches ELSE ~Done \/ Event.e = "build")
          \/ phase = "erred" /\ Event.e = "fail" /\ Event.r = fault
          \/ phase \in {"refused", "failed", "built", "spoiled", "unwound"} /\ Event.e = "ret" /\ Event.r = (IF fault = None THEN Ok ELSE fault)
=============================================================================
