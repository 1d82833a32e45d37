---------------------------- MODULE AdapterTrace ----------------------------
(* Validates recorded outer and inner calls of the implementation's adapters. *)
EXTENDS Adapters, Json, IOUtils, TLC

CONSTANT Watch

Traces == ndJsonDeserialize(IOEnv.TRACES)

VARIABLES tr, pos, bad, fan

vars == <<tr, pos, bad, fan>>

Init == tr \in 1..Len(Traces) /\ pos = 0 /\ bad = {} /\ fan = <<>>

Examine ==
    /\ pos = 0
    /\ pos' = 1
    /\ bad' = IF Traces[tr].outer = Declared(Traces[tr].inner, Traces[tr].reversals) THEN {} ELSE {"declared"}
    /\ UNCHANGED <<tr, fan>>

Step ==
    /\ pos > 0
    /\ pos <= Len(Traces[tr].ev)
    /\ pos' = pos + 1
    /\ tr' = tr
    /\ LET o == Traces[tr].ev[pos]
       IN  IF o.e = "ret"
           \* the replayed behaviour, or the run, came to its end
           \* (that it does is required elsewhere)
           THEN bad' = bad \cup (IF o.r \in {"ok", "hang", "crash"} THEN {} ELSE {"result"}) /\ fan' = fan
           ELSE bad' = bad \cup BrokenOuter(Traces[tr].kind, fan, o) /\ fan' = NextFan(fan, o)

Next == Examine \/ Step

Spec == Init /\ [][Next]_vars

HarnessSound == "harness" \notin bad
Holds == bad \cap Watch = {}
Detected == pos > Len(Traces[tr].ev) =>
                IF Traces[tr].expect = "none" THEN bad = {} ELSE Traces[tr].expect \in bad
=============================================================================
