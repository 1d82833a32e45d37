------------------------- MODULE TriangulationTrace -------------------------
(* Validates executions recorded from the implementation against            *)
(* Triangulation.  The file named by the environment variable TRACES holds  *)
(* one execution per line: the input, and the calls in the order made.      *)
(* Each initial state selects one execution, each step consumes one call.   *)
(* `bad` collects the requirements broken so far; Watch selects those of    *)
(* the property under check.                                                *)
EXTENDS Integers, Sequences, Json, IOUtils, TLC

CONSTANT Watch

Traces == ndJsonDeserialize(IOEnv.TRACES)

VARIABLES tr, pos, bad, phase, tris, fan, fault, result

vars == <<tr, pos, bad, phase, tris, fan, fault, result>>

T == INSTANCE Triangulation WITH run <- Traces[tr]

Init ==
    /\ tr \in 1..Len(Traces)
    /\ pos = 0
    /\ bad = {}
    /\ phase = "idle"
    /\ tris = <<>>
    /\ fan = <<>>
    /\ fault = T!None
    /\ result = T!Pending

Event == Traces[tr].ev[pos]

\* The next call, described by its broken requirements and its effect.
Consume ==
    LET e == Event  v == e.v IN
    CASE e.e = "init"  -> bad' = bad \cup T!BrokenInitialize(v[1], v[2], v[3]) /\ T!EffInitialize(v[1], v[2], v[3], e.r)
      [] e.e = "linit" -> bad' = bad \cup T!BrokenInitializeList /\ T!EffInitializeList(e.r)
      [] e.e = "fan"   -> bad' = bad \cup T!BrokenNewFan(v[1], v[2], v[3]) /\ T!EffNewFan(v[1], v[2], v[3], e.r)
      [] e.e = "tri"   -> bad' = bad \cup T!BrokenAddTriangle(v[1], v[2], v[3]) /\ T!EffAddTriangle(v[1], v[2], v[3], e.r)
      [] e.e = "ext"   -> bad' = bad \cup T!BrokenExtendFan(v[1]) /\ T!EffExtendFan(v[1], e.r)
      [] e.e = "build" -> bad' = bad \cup T!BrokenBuild /\ T!EffBuild(e.r)
      [] e.e = "fail"  -> bad' = bad \cup T!BrokenFail(e.r) /\ T!EffFail
      [] e.e = "trap"  -> bad' = bad \cup T!BrokenTrapezoidize(e.r) /\ T!EffTrapezoidize
      [] e.e = "ret"   -> bad' = bad \cup T!BrokenReturn(e.r) /\ T!EffReturn(e.r)

\* The first step examines the input itself: an execution counts only if it meets the preconditions.
\* The library saw the points moved by very little.  If no three of them are on a line this changes no triangulation.
Moved == "general" \in DOMAIN Traces[tr] /\ Traces[tr].general

Examine ==
    /\ pos = 0
    /\ pos' = 1
    /\ bad' = IF /\ Traces[tr].reject # T!None \/ T!ValidInput(Traces[tr].pts, Traces[tr].rings)
                 /\ Moved => T!GeneralPosition(Traces[tr].pts)
              THEN {} ELSE {"harness"}
    /\ UNCHANGED <<tr, phase, tris, fan, fault, result>>

Step ==
    /\ pos > 0
    /\ pos <= Len(Traces[tr].ev)
    /\ pos' = pos + 1
    /\ tr' = tr
    /\ Consume

Next == Examine \/ Step

Spec == Init /\ [][Next]_vars

\* The inputs the harness generated meet the preconditions.
HarnessSound == "harness" \notin bad

\* Controls: corrupted executions of which the requirement broken is known ("none" if correct).
Detected == pos > Len(Traces[tr].ev) =>
                IF Traces[tr].expect = "none" THEN bad = {} ELSE Traces[tr].expect \in bad

Holds == bad \cap Watch = {}
=============================================================================
