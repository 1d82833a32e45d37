------------------------------ MODULE Geometry ------------------------------
(* Exact planar geometry on integer points, shared by every specification.   *)
(* A point is a pair <<x, y>>.  Heights are compared lexicographically by    *)
(* (y, x): two points of equal y are ordered by x, as if the plane had been  *)
(* sheared by an infinitesimal amount.  The shear leaves Cross unchanged, so *)
(* Cross alone decides sides and no case distinction for horizontal edges is *)
(* needed here (the implementation does need one; see Seidel!IsLeft).        *)
EXTENDS Integers, Sequences, FiniteSets

X(p) == p[1]
Y(p) == p[2]

Lower(p, q) == Y(p) < Y(q) \/ (Y(p) = Y(q) /\ X(p) < X(q))
LowerEq(p, q) == p = q \/ Lower(p, q)

\* Twice the signed area of the triangle p, q, r; positive iff counterclockwise.
Cross(p, q, r) == (X(q) - X(p)) * (Y(r) - Y(p)) - (Y(q) - Y(p)) * (X(r) - X(p))

Dot(p, q, r) == (X(q) - X(p)) * (X(r) - X(p)) + (Y(q) - Y(p)) * (Y(r) - Y(p))

Min2(a, b) == IF a < b THEN a ELSE b
Max2(a, b) == IF a > b THEN a ELSE b
Sign(i) == IF i > 0 THEN 1 ELSE IF i < 0 THEN -1 ELSE 0

\* r lies on the closed segment p q.
OnSegment(p, q, r) ==
    /\ Min2(X(p), X(q)) <= X(r) /\ X(r) <= Max2(X(p), X(q))
    /\ Min2(Y(p), Y(q)) <= Y(r) /\ Y(r) <= Max2(Y(p), Y(q))
    /\ Cross(p, q, r) = 0

\* The closed segments p q and r s have a point in common.
SegmentsMeet(p, q, r, s) ==
    IF \/ Max2(X(p), X(q)) < Min2(X(r), X(s)) \/ Max2(X(r), X(s)) < Min2(X(p), X(q))
       \/ Max2(Y(p), Y(q)) < Min2(Y(r), Y(s)) \/ Max2(Y(r), Y(s)) < Min2(Y(p), Y(q))
    THEN FALSE
    ELSE LET d1 == Sign(Cross(p, q, r))  d2 == Sign(Cross(p, q, s))
             d3 == Sign(Cross(r, s, p))  d4 == Sign(Cross(r, s, q))
         IN  \/ d1 * d2 < 0 /\ d3 * d4 < 0
             \/ d1 = 0 /\ OnSegment(p, q, r)
             \/ d2 = 0 /\ OnSegment(p, q, s)
             \/ d3 = 0 /\ OnSegment(r, s, p)
             \/ d4 = 0 /\ OnSegment(r, s, q)

-----------------------------------------------------------------------------
(* Polygon lists: `pts` maps vertex ids to points, `rings` is a sequence of  *)
(* rings, each a sequence of vertex ids.                                      *)

NextIdx(ring, i) == IF i = Len(ring) THEN 1 ELSE i + 1
PrevIdx(ring, i) == IF i = 1 THEN Len(ring) ELSE i - 1

\* The directed edges <<u, v>> of all rings, as vertex ids in ring direction.
RingEdges(rings) ==
    UNION { { <<rings[r][i], rings[r][NextIdx(rings[r], i)]>> : i \in 1..Len(rings[r]) } : r \in 1..Len(rings) }

\* The documented preconditions: distinct vertices, each on exactly its own two
\* edges, and edges which meet nowhere else.
ValidInput(pts, rings) ==
    LET E == RingEdges(rings)
        V == UNION { {rings[r][i] : i \in 1..Len(rings[r])} : r \in 1..Len(rings) }
    IN  /\ \A r \in 1..Len(rings) : Len(rings[r]) >= 3
        /\ \A u, v \in V : u < v => pts[u] # pts[v]
        /\ \A e, f \in E :
              (e[1] < f[1] \/ (e[1] = f[1] /\ e[2] < f[2])) =>
                 IF {e[1], e[2]} \cap {f[1], f[2]} = {}
                 THEN ~SegmentsMeet(pts[e[1]], pts[e[2]], pts[f[1]], pts[f[2]])
                 ELSE LET s == CHOOSE w \in {e[1], e[2]} : w \in {f[1], f[2]}
                          a == CHOOSE w \in {e[1], e[2]} : w # s
                          b == CHOOSE w \in {f[1], f[2]} : w # s
                      IN  a # b /\ ~(Cross(pts[s], pts[a], pts[b]) = 0 /\ Dot(pts[s], pts[a], pts[b]) > 0)

\* No three points on a line
GeneralPosition(pts) == \A i \in 1..Len(pts) : \A j \in 1..i-1 : \A k \in 1..j-1 : Cross(pts[i], pts[j], pts[k]) # 0

\* Upward edges: the lower endpoint first.
Upward(pts, e) == IF Lower(pts[e[1]], pts[e[2]]) THEN e ELSE <<e[2], e[1]>>

\* For upward edges e and f that share a range of heights: e runs left of f.
EdgeLeftOf(pts, e, f) ==
    LET a == pts[e[1]]  b == pts[e[2]]  c == pts[f[1]]  d == pts[f[2]] IN
    IF e[1] # f[1]
    THEN IF Lower(c, a) THEN Cross(c, d, a) > 0 ELSE Cross(a, b, c) < 0
    ELSE IF Lower(b, d) THEN Cross(c, d, b) > 0 ELSE Cross(a, b, d) < 0

\* The number of upward edges in U that pass left of the upward edge e, just above e's lower endpoint.
EdgesLeftOf(pts, U, e) ==
    { f \in U : /\ f # e
                /\ LowerEq(pts[f[1]], pts[e[1]]) /\ Lower(pts[e[1]], pts[f[2]])
                /\ EdgeLeftOf(pts, f, e) }

\* The even-odd rule: the interior lies to the right (east) of the upward edge e.
InteriorEast(pts, U, e) == Cardinality(EdgesLeftOf(pts, U, e)) % 2 = 0

UpwardEdges(pts, rings) == { Upward(pts, e) : e \in RingEdges(rings) }

\* The boundary of the interior, each edge directed so that the interior lies on its left.
InteriorBoundary(pts, rings) ==
    LET U == UpwardEdges(pts, rings) IN
    UNION { LET ring == rings[r]
                e1 == <<ring[1], ring[2]>>
                u1 == Upward(pts, e1)
                \* walking upward, the left hand side is west
                forward == (u1 = e1) # InteriorEast(pts, U, u1)
            IN  { LET e == <<ring[i], ring[NextIdx(ring, i)]>>
                  IN  IF forward THEN e ELSE <<e[2], e[1]>> : i \in 1..Len(ring) }
          : r \in 1..Len(rings) }
=============================================================================
