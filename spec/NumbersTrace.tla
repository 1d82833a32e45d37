---------------------------- MODULE NumbersTrace ----------------------------
(* Validates executions on inputs placed in a number format (Floats).  The   *)
(* recorded input has the integer coordinates before placing; as the placing *)
(* is exact, the run must be what Triangulation requires of those.           *)
EXTENDS TriangulationTrace

F == INSTANCE Floats

ExaminePlaced ==
    /\ pos = 0
    /\ pos' = 1
    /\ bad' = IF /\ T!ValidInput(Traces[tr].pts, Traces[tr].rings)
                 /\ F!Exact(F!FormatNamed(Traces[tr].format), Traces[tr].map, Traces[tr].pts) THEN {} ELSE {"harness"}
    /\ UNCHANGED <<tr, phase, tris, fan, fault, result>>

PlacedNext == ExaminePlaced \/ Step

PlacedSpec == Init /\ [][PlacedNext]_vars
=============================================================================
