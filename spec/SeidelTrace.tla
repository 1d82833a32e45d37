---------------------------- MODULE SeidelTrace -----------------------------
(* Compares the structure recorded from the implementation after each        *)
(* inserted segment with Seidel, trapezoid by trapezoid in the order of      *)
(* their creation.  As in SweepTrace, this is stronger than what a user may  *)
(* rely on: a disagreement is a fact about the specification, never a        *)
(* violation.                                                                *)
EXTENDS Seidel, Json, IOUtils

Traces == ndJsonDeserialize(IOEnv.TRACES)

VARIABLES tr, pos

vars == <<input, ring, todo, st, tr, pos>>

Init == /\ tr \in 1..Len(Traces)
        /\ pos = 1
        /\ StartOf([pts |-> Traces[tr].pts, rings |-> Traces[tr].rings])

Snap == Traces[tr].ev[pos]
Recorded(i) == Upward(SPts, <<Ring[i], Ring[NextIdx(Ring, i)]>>) = Snap.segs[Len(Snap.segs)]

TNext == /\ tr' = tr
         /\ \/ NextRing /\ UNCHANGED pos
            \/ /\ pos <= Len(Traces[tr].ev)
               /\ Snap.e = "snap"
               /\ \E i \in todo : Recorded(i) /\ InsertEdge(i, FALSE)
               /\ pos' = pos + 1

Spec == Init /\ [][TNext]_vars

\* After each insertion the trapezoids are those recorded.
Agrees == /\ st.err = NoError
          /\ pos > 1 => LET e == Traces[tr].ev[pos - 1] IN
                        /\ Len(e.traps) = Len(st.ts)
                        /\ \A t \in 1..Len(st.ts) : LET c == CellOf(st.ts[t]) IN e.traps[t] = << c.left, c.right, c.down, c.up >>
          /\ (pos <= Len(Traces[tr].ev) /\ Snap.e = "snap" /\ todo # {}) => \E i \in todo : Recorded(i)
=============================================================================
