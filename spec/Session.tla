------------------------------ MODULE Session ------------------------------
(* A history of runs over one trapezoidation.  Each run obeys Triangulation; *)
(* in addition the runs must agree: `known[w]` is what has been learnt of    *)
(* the triangle sequence for winding w, from complete runs and from runs     *)
(* that failed half-way.                                                     *)
(*                                                                           *)
(* Runs may overlap: a builder may start another run while it is being       *)
(* called, and several threads may run at once.  The variables of            *)
(* Triangulation are those of the run `cur` which makes the next step;       *)
(* `others` has those of the runs which are suspended.                       *)
EXTENDS Triangulation, SequencesExt

VARIABLES known,   \* [winding -> [tris, complete]]
          cur,     \* the run which makes the next step
          others,  \* [run -> its variables] of the runs which were suspended
          shared   \* the current run uses the session's trapezoidation (a one-step run makes its own)

svars == <<known, cur, others, shared>>

NothingKnown == [w \in {"ccw", "cw"} |-> [tris |-> <<>>, complete |-> FALSE]]

\* A complete run's triangles against what is known.
AgreesWhole(w, ts) == IF known[w].complete THEN ts = known[w].tris ELSE IsPrefix(known[w].tris, ts)

\* The triangles of a run which failed.
AgreesPart(w, ts) ==
    \/ IsPrefix(ts, known[w].tris)
    \/ ~known[w].complete /\ IsPrefix(known[w].tris, ts)

LearnWhole(w, ts) == known' = [known EXCEPT ![w] = [tris |-> ts, complete |-> TRUE]]
LearnPart(w, ts) == known' = IF Len(ts) > Len(known[w].tris) /\ ~known[w].complete THEN [known EXCEPT ![w].tris = ts] ELSE known

\* Another run goes on.  It is not affected by what happened since it was suspended.
Suspended == [run |-> run, phase |-> phase, tris |-> tris, fan |-> fan, fault |-> fault, result |-> result, shared |-> shared]

Switch(id) ==
    LET all == (cur :> Suspended) @@ others
        next == IF id \in DOMAIN all THEN all[id]
                ELSE [run |-> run, phase |-> "returned", tris |-> <<>>, fan |-> <<>>, fault |-> None, result |-> Pending, shared |-> TRUE]
    IN  /\ others' = [other \in DOMAIN all \ {id} |-> all[other]]
        /\ cur' = id
        /\ run' = next.run
        /\ phase' = next.phase
        /\ tris' = next.tris
        /\ fan' = next.fan
        /\ fault' = next.fault
        /\ result' = next.result
        /\ shared' = next.shared
        /\ known' = known

\* A new run.
Begin(r, s) ==
    /\ run' = r
    /\ phase' = "idle"
    /\ tris' = <<>>
    /\ fan' = <<>>
    /\ fault' = None
    /\ result' = Pending
    /\ shared' = s
    /\ UNCHANGED <<known, cur, others>>

\* The end of a run.
BrokenAgreement(res) ==
    IF ~shared THEN {}
    ELSE IF res = Ok THEN (IF AgreesWhole(run.winding, tris) THEN {} ELSE {"reuse"})
    ELSE (IF AgreesPart(run.winding, tris) THEN {} ELSE {"reuse"})

Learn(res) ==
    IF ~shared THEN known' = known
    ELSE IF res = Ok THEN LearnWhole(run.winding, tris) ELSE LearnPart(run.winding, tris)
=============================================================================
