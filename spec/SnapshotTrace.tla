--------------------------- MODULE SnapshotTrace ---------------------------
(* Validates the decomposition the implementation has built after each       *)
(* inserted segment against Decomposition.  A recorded snapshot holds        *)
(*    segs   the segments inserted so far                                    *)
(*    traps  the trapezoids, each <<left, right, down, up>>                  *)
(*    loc    for vertices yet to be inserted: <<vertex, trapezoid found from *)
(*           the remembered search position, trapezoid found from the root>> *)
EXTENDS Integers, Sequences, FiniteSets, Json, IOUtils, TLC

CONSTANT Watch

Traces == ndJsonDeserialize(IOEnv.TRACES)

VARIABLES tr, pos, bad, segs

vars == <<tr, pos, bad, segs>>

D == INSTANCE Decomposition WITH input <- Traces[tr]

Init == /\ tr \in 1..Len(Traces)
        /\ pos = 0
        /\ bad = {}
        /\ segs = {}

CellOf(t) == [left |-> t[1], right |-> t[2], down |-> t[3], up |-> t[4]]

\* One more edge of the input has been inserted.
BrokenInsert(new) == IF /\ segs \subseteq new
                        /\ Cardinality(new) = Cardinality(segs) + 1
                        /\ new \subseteq D!Edges THEN {} ELSE {"insertion"}

BrokenCells(new, traps) ==
    LET found == { CellOf(traps[i]) : i \in 1..Len(traps) }
    IN  IF found = D!Cells(new) /\ Cardinality(found) = Len(traps) THEN {} ELSE {"cells"}

BrokenLocations(traps, loc) ==
    IF \A i \in 1..Len(loc) : \A k \in 2..3 :
          loc[i][k] \in 1..Len(traps) /\ D!Inside(CellOf(traps[loc[i][k]]), Traces[tr].pts[loc[i][1]])
    THEN {} ELSE {"location"}

Consume ==
    LET e == Traces[tr].ev[pos] IN
    CASE e.e = "snap" ->
            LET new == { e.segs[i] : i \in 1..Len(e.segs) } IN
            /\ segs' = new
            /\ bad' = bad \cup BrokenInsert(new)
                          \cup (IF new \subseteq D!Edges THEN BrokenCells(new, e.traps) \cup BrokenLocations(e.traps, e.loc) ELSE {})
      \* the end of the trapezoidation
      [] e.e = "ret" ->
            /\ segs' = segs
            /\ bad' = bad \cup (IF e.r = "ok" /\ segs = D!Edges THEN {} ELSE {"completion"})

Examine ==
    /\ pos = 0
    /\ pos' = 1
    /\ bad' = IF D!ValidInput(Traces[tr].pts, Traces[tr].rings) THEN {} ELSE {"harness"}
    /\ UNCHANGED <<tr, segs>>

Step ==
    /\ pos > 0
    /\ pos <= Len(Traces[tr].ev)
    /\ pos' = pos + 1
    /\ tr' = tr
    /\ Consume

Next == Examine \/ Step

Spec == Init /\ [][Next]_vars

HarnessSound == "harness" \notin bad
Detected == pos > Len(Traces[tr].ev) =>
                IF Traces[tr].expect = "none" THEN bad = {} ELSE Traces[tr].expect \in bad
Holds == bad \cap Watch = {}
=============================================================================
