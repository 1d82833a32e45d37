---------------------------- MODULE StreamTrace ----------------------------
(* Validates executions on element streams, well-formed or not.  A recorded  *)
(* execution carries the stream itself: the rings and the expected rejection *)
(* are derived here (module Streams), and the calls are judged by            *)
(* Triangulation.  Executions with a predefined format carry the contents of *)
(* a container passed by reference before and after.                         *)
EXTENDS Integers, Sequences, Json, IOUtils, TLC

CONSTANT Watch

Traces == ndJsonDeserialize(IOEnv.TRACES)

VARIABLES tr, pos, bad, run, phase, tris, fan, fault, result

vars == <<tr, pos, bad, run, phase, tris, fan, fault, result>>

T == INSTANCE Triangulation
S == INSTANCE Streams

RunOf(t) == [pts |-> t.pts, rings |-> S!GroupRings(t.stream), winding |-> t.winding, reject |-> S!RejectOf(t.stream)]

Init ==
    /\ tr \in 1..Len(Traces)
    /\ run = RunOf(Traces[tr])
    /\ pos = 0
    /\ bad = {}
    /\ phase = "idle"
    /\ tris = <<>>
    /\ fan = <<>>
    /\ fault = T!None
    /\ result = T!Pending

\* A container after a refused input is as it was before.
BrokenContainer(before, after) ==
    IF run.reject # T!None /\ before # after THEN {"untouched"} ELSE {}

\* A run into a predefined format: its builder calls are not visible, only its result.
BrokenOpaque(res) ==
    IF run.reject = T!None THEN (IF res = T!Ok THEN {} ELSE {"success"})
    ELSE (IF res = run.reject THEN {} ELSE {"reject"})

Consume ==
    LET e == Traces[tr].ev[pos]  v == e.v IN
    CASE e.e = "init"  -> bad' = bad \cup T!BrokenInitialize(v[1], v[2], v[3]) /\ T!EffInitialize(v[1], v[2], v[3], e.r)
      [] e.e = "linit" -> bad' = bad \cup T!BrokenInitializeList /\ T!EffInitializeList(e.r)
      [] e.e = "fan"   -> bad' = bad \cup T!BrokenNewFan(v[1], v[2], v[3]) /\ T!EffNewFan(v[1], v[2], v[3], e.r)
      [] e.e = "tri"   -> bad' = bad \cup T!BrokenAddTriangle(v[1], v[2], v[3]) /\ T!EffAddTriangle(v[1], v[2], v[3], e.r)
      [] e.e = "ext"   -> bad' = bad \cup T!BrokenExtendFan(v[1]) /\ T!EffExtendFan(v[1], e.r)
      [] e.e = "build" -> bad' = bad \cup T!BrokenBuild /\ T!EffBuild(e.r)
      [] e.e = "fail"  -> bad' = bad \cup T!BrokenFail(e.r) /\ T!EffFail
      [] e.e = "trap"  -> bad' = bad \cup T!BrokenTrapezoidize(e.r) /\ T!EffTrapezoidize
      [] e.e = "ret"   -> bad' = bad \cup T!BrokenReturn(e.r) /\ T!EffReturn(e.r)
      [] e.e = "opaque" -> bad' = bad \cup BrokenOpaque(e.r) \cup BrokenContainer(e.before, e.after) /\ UNCHANGED <<run, phase, tris, fan, fault, result>>

Examine ==
    /\ pos = 0
    /\ pos' = 1
    /\ bad' = IF run.reject # T!None \/ T!ValidInput(run.pts, run.rings) THEN {} ELSE {"harness"}
    /\ UNCHANGED <<tr, run, phase, tris, fan, fault, result>>

Step ==
    /\ pos > 0
    /\ pos <= Len(Traces[tr].ev)
    /\ pos' = pos + 1
    /\ tr' = tr
    /\ Consume

Next == Examine \/ Step

Spec == Init /\ [][Next]_vars

HarnessSound == "harness" \notin bad
Detected == pos > Len(Traces[tr].ev) =>
                IF Traces[tr].expect = "none" THEN bad = {} ELSE Traces[tr].expect \in bad
Holds == bad \cap Watch = {}
=============================================================================
