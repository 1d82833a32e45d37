-------------------------- MODULE DecompositionMC --------------------------
(* Checks the definition of the cells itself, on all sets of segments which  *)
(* can be reached by inserting the edges of the inputs in a catalogue.       *)
EXTENDS Decomposition, Json, IOUtils

Catalogue == ndJsonDeserialize(IOEnv.CATALOGUE)

VARIABLE k

Init == /\ k \in 1..Len(Catalogue)
        /\ input = [pts |-> Catalogue[k].pts, rings |-> Catalogue[k].rings]
        /\ segs = {}

MCNext == Next /\ k' = k
Spec == Init /\ [][MCNext]_<<k, input, segs>>

InputsValid == segs = {} => ValidInput(input.pts, input.rings)

\* Every segment and every vertex adds exactly one cell.
Count == Cardinality(Cells(segs)) = Cardinality(segs) + Cardinality(EndsOf(segs)) + 1

\* The cells are disjoint and cover everything: each point of the grid around the input that is on no segment
\* and is no vertex lies in exactly one of them.
Box == LET xs == { X(Pts[v]) : v \in DOMAIN Pts }  ys == { Y(Pts[v]) : v \in DOMAIN Pts }
           lo(s) == CHOOSE x \in s : \A y \in s : x <= y
           hi(s) == CHOOSE x \in s : \A y \in s : x >= y
       IN  (lo(xs) - 1 .. hi(xs) + 1) \X (lo(ys) - 1 .. hi(ys) + 1)
Free(p) == /\ \A s \in segs : ~OnSegment(Pts[s[1]], Pts[s[2]], p)
           /\ \A v \in EndsOf(segs) : Pts[v] # p
Partition == \A p \in Box : Free(p) => Cardinality({ c \in Cells(segs) : Inside(c, p) }) = 1

\* No cell is pointless: its floor is below its ceiling, its left side is left of its right side.
Proper == \A c \in Cells(segs) :
            /\ c.down # NoVertex /\ c.up # NoVertex => Lower(Pts[c.down], Pts[c.up])
            /\ c.left # NoSegment /\ c.right # NoSegment => EdgeLeftOf(Pts, c.left, c.right)
            /\ \A s \in {c.left, c.right} \ {NoSegment} :
                  /\ c.down # NoVertex /\ LowerEq(Pts[s[1]], Pts[c.down])
                  /\ c.up # NoVertex /\ LowerEq(Pts[c.up], Pts[s[2]])

\* Inserting a segment only changes cells which it crosses or touches.
Local == [][\A c \in Cells(segs) \ Cells(segs') :
                LET s == CHOOSE e \in segs' \ segs : TRUE
                IN  /\ c.down = NoVertex \/ Lower(Pts[c.down], Pts[s[2]]) \/ Pts[c.down] = Pts[s[2]]
                    /\ c.up = NoVertex \/ LowerEq(Pts[s[1]], Pts[c.up])]_segs
=============================================================================
