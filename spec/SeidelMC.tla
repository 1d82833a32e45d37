------------------------------ MODULE SeidelMC ------------------------------
(* Model checks Seidel against Decomposition: for every input of a catalogue *)
(* (or for every simple polygon with so many vertices on a grid), every      *)
(* order of insertion and every schedule of refreshes.                       *)
EXTENDS Seidel, Json, IOUtils

CONSTANTS Width, Height,  \* of the grid; 0 for the catalogue
          Corners,  \* number of vertices of the polygons on the grid
          Refreshes \* the choices of refreshing: a subset of BOOLEAN

Catalogue == ndJsonDeserialize(IOEnv.CATALOGUE)

D == INSTANCE Decomposition WITH segs <- Inserted

Points == (0 .. Width - 1) \X (0 .. Height - 1)

\* Every simple polygon once: it starts with its lowest vertex.  Both directions are kept.
Polygons == { p \in [1..Corners -> Points] :
                /\ \A i \in 2..Corners : Lower(p[1], p[i])
                /\ ValidInput(p, << [i \in 1..Corners |-> i] >>) }

Init == IF Width = 0
        THEN \E k \in 1..Len(Catalogue) : StartOf([pts |-> Catalogue[k].pts, rings |-> Catalogue[k].rings])
        ELSE \E p \in Polygons : StartOf([pts |-> p, rings |-> << [i \in 1..Corners |-> i] >>])

MCNext == NextRing \/ \E i \in 1..Len(Ring), refresh \in Refreshes : InsertEdge(i, refresh)

Spec == Init /\ [][MCNext]_<<input, ring, todo, st>>

InputsValid == st.ss = <<>> => ValidInput(input.pts, input.rings)

NoFailure == st.err = NoError

\* Each step inserts one segment, as Decomposition does.
Refines == [][D!Next]_Inserted

CellsExact == LET found == { CellOf(st.ts[t]) : t \in 1..Len(st.ts) }
              IN  found = D!Cells(Inserted) /\ Cardinality(found) = Len(st.ts)

Located(q, p) == D!Inside(CellOf(st.ts[st.qs[Find(st, q, p)].t]), p)

\* Pending vertices (of this ring and of later ones) are found, from the root and from where the search is going to start.
VerticesFound == \A v \in DOMAIN SPts : ~st.loc[v].in => Located(1, SPts[v]) /\ Located(st.loc[v].i, SPts[v])

\* So is any other point which is on no segment.
Box == LET xs == { X(SPts[v]) : v \in DOMAIN SPts }  ys == { Y(SPts[v]) : v \in DOMAIN SPts }
           lo(s) == CHOOSE x \in s : \A y \in s : x <= y
           hi(s) == CHOOSE x \in s : \A y \in s : x >= y
       IN  (lo(xs) - 1 .. hi(xs) + 1) \X (lo(ys) - 1 .. hi(ys) + 1)
Free(p) == /\ \A s \in Inserted : ~OnSegment(SPts[s[1]], SPts[s[2]], p)
           /\ \A v \in D!EndsOf(Inserted) : SPts[v] # p
PointsFound == \A p \in Box : Free(p) => Located(1, p)

\* Nexuses and trapezoids agree about their adjacency, and a trapezoid is found at its sink.
Ups(n) == {n.upleft} \cup { n.divs[i].right : i \in { j \in 1..Len(n.divs) : n.divs[j].up } }
Downs(n) == {n.downleft} \cup { n.divs[i].right : i \in { j \in 1..Len(n.divs) : ~n.divs[j].up } }
Adjacent ==
    /\ \A n \in 1..Len(st.ns) : /\ Ups(st.ns[n]) = { t \in 1..Len(st.ts) : st.ts[t].down = n }
                                /\ Downs(st.ns[n]) = { t \in 1..Len(st.ts) : st.ts[t].up = n }
    /\ \A t \in 1..Len(st.ts) : st.qs[st.ts[t].sink] = [kind |-> "sink", t |-> t]

\* The dividers of a nexus: those above first, from left to right.
DividersOrdered ==
    \A n \in 1..Len(st.ns) : LET d == st.ns[n].divs IN
        Len(d) = 2 => /\ ~(~d[1].up /\ d[2].up)
                      /\ d[1].up = d[2].up => EdgeLeftOf(SPts, SegmentOf(d[1].s), SegmentOf(d[2].s)) \/ ~d[1].up
                      /\ ~d[1].up /\ ~d[2].up =>
                            \* both end here: the first comes from further left
                            Cross(SPts[VertexOf(n)], SPts[SegmentOf(d[1].s)[1]], SPts[SegmentOf(d[2].s)[1]]) > 0

RECURSIVE Top(_)
Top(q) == IF st.qs[q].kind = "sink" THEN st.qs[q].t ELSE IF st.qs[q].kind = "y" THEN Top(st.qs[q].r) ELSE 0
\* The traversal starts in the uppermost trapezoid.
TopFound == Top(1) # 0 /\ st.ts[Top(1)].up = NoIdx

\* A finished structure: every vertex has its two edges.
Complete == (st.err = NoError /\ todo = {} /\ ring = Len(input.rings)) =>
                /\ Inserted = D!Edges
                /\ \A n \in 1..Len(st.ns) : Len(st.ns[n].divs) = 2
=============================================================================
