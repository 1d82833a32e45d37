----------------------------- MODULE IndexTrace -----------------------------
(* Validates executions whose calls carry the indices themselves, as the     *)
(* builder received them.  Every index is identified with a vertex by        *)
(* Indices; the run is then judged by Triangulation.  In addition to the     *)
(* calls of a run there are                                                  *)
(*    yield   one pass over the list: its indices, <<>> for a separator      *)
(*    get     the lookup of an index, and the coordinates found              *)
(* If an index cannot be converted, the only correct end is a panic.         *)
EXTENDS Integers, Sequences, Json, IOUtils, TLC

CONSTANT Watch

Traces == ndJsonDeserialize(IOEnv.TRACES)

VARIABLES tr, pos, bad, run, phase, tris, fan, fault, result

vars == <<tr, pos, bad, run, phase, tris, fan, fault, result>>

T == INSTANCE Triangulation
S == INSTANCE Streams
I == INSTANCE Indices

sub == Traces[tr].sub
orig == Traces[tr].orig
Usable == I!AllConvertible(sub, orig)
Id(index) == I!VertexOf(sub, orig, index)

Init ==
    /\ tr \in 1..Len(Traces)
    /\ run = [pts |-> Traces[tr].pts, rings |-> Traces[tr].rings, winding |-> Traces[tr].winding, reject |-> "none"]
    /\ pos = 0
    /\ bad = {}
    /\ phase = "idle"
    /\ tris = <<>>
    /\ fan = <<>>
    /\ fault = T!None
    /\ result = T!Pending

\* The list yields exactly its own vertices, ring by ring.
BrokenYield(indices, res) ==
    IF ~Usable THEN {}
    ELSE IF res # "ok" THEN {"index"}
    ELSE IF S!GroupRings([i \in 1..Len(indices) |-> IF indices[i] = <<>> THEN S!Separator ELSE IF Id(indices[i]) = 0 THEN -1 ELSE Id(indices[i])]) = run.rings
    THEN {} ELSE {"index"}

\* A list's own index leads to its vertex; one that cannot be converted back leads to a panic,
\* and so does (in the library's own containers) one that the list does not have.
BrokenGet(index, point, res) ==
    IF Id(index) # 0 THEN
         IF I!BackConvertible(sub, index) THEN (IF res = "ok" /\ point = run.pts[Id(index)] THEN {} ELSE {"lookup"})
         ELSE (IF res = "panic" THEN {} ELSE {"conversion"})
    ELSE (IF res = "panic" THEN {} ELSE {"conversion"})

Failing(res) == (IF res = "panic" THEN {} ELSE {"conversion"})

Judge(b) == bad' = bad \cup IF Usable THEN b ELSE {}
\* Even then, no index is delivered which is not the list's.
Triangle(v, b) == bad' = bad \cup IF Usable THEN b ELSE IF \A i \in 1..Len(v) : Id(v[i]) # 0 THEN {} ELSE {"index"}

Consume ==
    LET e == Traces[tr].ev[pos]  v == e.v  n == [i \in 1..Len(v) |-> Id(v[i])] IN
    CASE e.e = "init"  -> Triangle(v, T!BrokenInitialize(n[1], n[2], n[3])) /\ T!EffInitialize(n[1], n[2], n[3], e.r)
      [] e.e = "linit" -> Judge(T!BrokenInitializeList) /\ T!EffInitializeList(e.r)
      [] e.e = "fan"   -> Triangle(v, T!BrokenNewFan(n[1], n[2], n[3])) /\ T!EffNewFan(n[1], n[2], n[3], e.r)
      [] e.e = "tri"   -> Triangle(v, T!BrokenAddTriangle(n[1], n[2], n[3])) /\ T!EffAddTriangle(n[1], n[2], n[3], e.r)
      [] e.e = "ext"   -> Triangle(v, T!BrokenExtendFan(n[1])) /\ T!EffExtendFan(n[1], e.r)
      [] e.e = "build" -> Judge(T!BrokenBuild) /\ T!EffBuild(e.r)
      [] e.e = "fail"  -> Judge(T!BrokenFail(e.r)) /\ T!EffFail
      [] e.e = "ret"   -> bad' = bad \cup (IF Usable THEN T!BrokenReturn(e.r) ELSE Failing(e.r)) /\ T!EffReturn(e.r)
      [] e.e = "yield" -> bad' = bad \cup BrokenYield(v, e.r) /\ UNCHANGED <<run, phase, tris, fan, fault, result>>
      [] e.e = "get"   -> bad' = bad \cup BrokenGet(e.v, e.p, e.r) /\ UNCHANGED <<run, phase, tris, fan, fault, result>>

Examine ==
    /\ pos = 0
    /\ pos' = 1
    /\ bad' = IF T!ValidInput(run.pts, run.rings) /\ Len(orig) = Len(run.pts) THEN {} ELSE {"harness"}
    /\ UNCHANGED <<tr, run, phase, tris, fan, fault, result>>

Step ==
    /\ pos > 0
    /\ pos <= Len(Traces[tr].ev)
    /\ pos' = pos + 1
    /\ tr' = tr
    /\ Consume

Next == Examine \/ Step

Spec == Init /\ [][Next]_vars

HarnessSound == "harness" \notin bad
Detected == pos > Len(Traces[tr].ev) =>
                IF Traces[tr].expect = "none" THEN bad = {} ELSE Traces[tr].expect \in bad
Holds == bad \cap Watch = {}
=============================================================================
