------------------------------- MODULE TilesMC -------------------------------
(* Validates the oracle.  Triangulation!Tiles decides tilings by adding up   *)
(* oriented boundaries.  Here it is compared with a direct definition (the   *)
(* triangles have disjoint interiors, lie in the interior of the polygon     *)
(* set, and add up to its area) for every set of triangles over each polygon *)
(* set of a catalogue.  The catalogue comes from a file.                     *)
EXTENDS Geometry, Json, IOUtils, TLC, FiniteSetsExt, SequencesExt

Catalogue == ndJsonDeserialize(IOEnv.CATALOGUE)

VARIABLES cat, chosen, last

vars == <<cat, chosen, last>>

T == INSTANCE Triangulation WITH
        run <- [pts |-> Catalogue[cat].pts, rings |-> Catalogue[cat].rings, winding |-> "ccw", reject |-> "none"],
        phase <- "open", tris <- chosen, fan <- <<>>, fault <- "none", result <- "pending"

Pts == Catalogue[cat].pts
N == Len(Pts)

\* All triangles over the vertices of nonzero area, counterclockwise, numbered.
AllTriangles(pts) ==
    SetToSortSeq({ t \in (1..Len(pts)) \X (1..Len(pts)) \X (1..Len(pts)) :
                     t[1] < t[2] /\ t[1] < t[3] /\ t[2] # t[3] /\ Cross(pts[t[1]], pts[t[2]], pts[t[3]]) > 0 },
                 LAMBDA a, b : a[1] < b[1] \/ (a[1] = b[1] /\ (a[2] < b[2] \/ (a[2] = b[2] /\ a[3] < b[3]))))

-----------------------------------------------------------------------------
\* p is strictly inside the triangle t (a triple of points, counterclockwise).
Inside(t, p) == Cross(t[1], t[2], p) > 0 /\ Cross(t[2], t[3], p) > 0 /\ Cross(t[3], t[1], p) > 0

Corners(ids) == << Pts[ids[1]], Pts[ids[2]], Pts[ids[3]] >>

\* Two counterclockwise triangles have disjoint interiors iff one of their edges separates them.
Separates(t, u) == \E i \in 1..3 : \A k \in 1..3 : Cross(t[i], t[(i % 3) + 1], u[k]) <= 0
Disjoint(t, u) == Separates(t, u) \/ Separates(u, t)

\* The segment a b meets the interior of the triangle t: the triangle lies on neither closed side of its line,
\* and no edge of the triangle has the whole segment on its outer closed side.
MeetsInterior(a, b, t) ==
    /\ \E k \in 1..3 : Cross(a, b, t[k]) > 0
    /\ \E k \in 1..3 : Cross(a, b, t[k]) < 0
    /\ ~\E i \in 1..3 : Cross(t[i], t[(i % 3) + 1], a) <= 0 /\ Cross(t[i], t[(i % 3) + 1], b) <= 0

\* Even-odd rule for the point p of a plane scaled by s: a ray to the right crosses an odd number of edges.
Scaled(s, p) == <<s * X(p), s * Y(p)>>
InsideRings(s, p) ==
    LET E == RingEdges(Catalogue[cat].rings)
        crosses(e) == LET a == Scaled(s, Pts[e[1]])  b == Scaled(s, Pts[e[2]])
                          lo == IF Y(a) < Y(b) THEN a ELSE b
                          hi == IF Y(a) < Y(b) THEN b ELSE a
                      IN  Y(lo) <= Y(p) /\ Y(p) < Y(hi) /\ Cross(lo, hi, p) > 0
    IN  Cardinality({ e \in E : crosses(e) }) % 2 = 1

InInterior(t) ==
    /\ InsideRings(3, << X(t[1]) + X(t[2]) + X(t[3]), Y(t[1]) + Y(t[2]) + Y(t[3]) >>)
    /\ \A e \in RingEdges(Catalogue[cat].rings) : ~MeetsInterior(Pts[e[1]], Pts[e[2]], t)

\* Twice the area of the interior: the area right of the interior's boundary edges, by the shoelace formula.
Area2 == LET B == InteriorBoundary(Pts, Catalogue[cat].rings)
         IN  FoldSet(LAMBDA e, acc : acc + X(Pts[e[1]]) * Y(Pts[e[2]]) - X(Pts[e[2]]) * Y(Pts[e[1]]), 0, B)

DirectTiles(ts) ==
    /\ FoldSeq(LAMBDA t, acc : acc + Cross(Pts[t[1]], Pts[t[2]], Pts[t[3]]), 0, ts) = Area2
    /\ \A i, j \in 1..Len(ts) : i < j => Disjoint(Corners(ts[i]), Corners(ts[j]))
    /\ \A i \in 1..Len(ts) : InInterior(Corners(ts[i]))
-----------------------------------------------------------------------------
Init == cat \in 1..Len(Catalogue) /\ chosen = <<>> /\ last = 0

\* Choose sets of triangles in increasing order (with repetition, once), up to two more than a tiling has.
Next ==
    LET all == AllTriangles(Pts) IN
    /\ Len(chosen) < Catalogue[cat].limit
    /\ \E k \in 1..Len(all) : k >= last /\ chosen' = Append(chosen, all[k]) /\ last' = k
    /\ UNCHANGED cat

Spec == Init /\ [][Next]_vars

InputsValid == ValidInput(Pts, Catalogue[cat].rings)
OracleSound == T!Tiles(chosen) <=> DirectTiles(chosen)
=============================================================================
