----------------------------- MODULE WorkTrace -----------------------------
(* Judges measured runs by Work.  Events: "run" with shape s, size n and the *)
(* work per vertex w (in hundredths); r is "ok", or "exceeded" if the run    *)
(* was stopped for taking far too much.                                      *)
EXTENDS Integers, Sequences, Json, IOUtils, TLC

CONSTANT Watch

Traces == ndJsonDeserialize(IOEnv.TRACES)

VARIABLES tr, pos, bad, table

vars == <<tr, pos, bad, table>>

W == INSTANCE Work

Init == /\ tr \in 1..Len(Traces)
        /\ pos = 1
        /\ bad = {}
        /\ table = W!Empty

\* The measurements must suffice for a verdict: every shape in every size, over a 64-fold range.
Sound == W!Complete /\ W!Greatest >= 64 * W!Smallest

Step ==
    LET e == Traces[tr].ev[pos] IN
    /\ pos <= Len(Traces[tr].ev)
    /\ pos' = pos + 1
    /\ tr' = tr
    /\ CASE e.e = "run" -> /\ W!Measure(e.s, e.n, e.w)
                           /\ bad' = bad \cup (IF e.r = "exceeded" THEN {"work"} ELSE IF e.r = "ok" THEN {} ELSE {"success"})
         [] e.e = "ret" -> /\ table' = table
                           /\ bad' = bad \cup (IF "work" \in bad THEN {} ELSE IF e.r # "ok" \/ W!TooSteep THEN {"work"} ELSE IF ~Sound THEN {"harness"} ELSE IF W!NearLinear THEN {} ELSE {"work"})

Spec == Init /\ [][Step]_vars

HarnessSound == "harness" \notin bad
Detected == pos > Len(Traces[tr].ev) =>
                IF Traces[tr].expect = "none" THEN bad = {} ELSE Traces[tr].expect \in bad
Holds == bad \cap Watch = {}
=============================================================================
