-------------------------------- MODULE Huge --------------------------------
(* Inputs of many thousand vertices.  Geometry!ValidInput compares every two  *)
(* edges, and Triangulation!Tiles may; both are out of reach there.  Three    *)
(* kinds of polygon sets come with a certificate that is checked in linear    *)
(* time and implies what those operators say (HugeMC checks that it does):    *)
(*                                                                            *)
(*   strip  one ring between two graphs over the same abscissae               *)
(*   cells  small rings, one in each cell of a square lattice                 *)
(*   nest   convex rings, each strictly inside the one before                 *)
(*                                                                            *)
(* An input has the fields pts, rings, kind, swap (abscissa and ordinate are  *)
(* exchanged), rot and rev (for each ring, where its description starts and   *)
(* whether it is listed backwards), side and cols (the lattice).              *)
EXTENDS Geometry, SequencesExt

\* The i-th vertex (from 0) of ring r in the order of its description
Described(in, r, i) ==
    LET n == Len(in.rings[r])
    IN  in.rings[r][ ((IF in.rev[r] THEN in.rot[r] - i ELSE in.rot[r] + i) % n) + 1 ]

A(in, v) == in.pts[v][IF in.swap THEN 2 ELSE 1]
B(in, v) == in.pts[v][IF in.swap THEN 1 ELSE 2]

IsStrip(in) ==
    LET n == Len(in.rings[1])
        v(i) == Described(in, 1, i)
    IN  /\ Len(in.rings) = 1
        /\ n >= 4 /\ n % 2 = 0
        /\ \A i \in 0..((n \div 2) - 1) :
              /\ A(in, v(i)) = A(in, v(n - 1 - i))
              /\ B(in, v(i)) < B(in, v(n - 1 - i))
              /\ i > 0 => A(in, v(i - 1)) < A(in, v(i))

InCell(in, r) ==
    LET left == ((r - 1) % in.cols) * in.side
        low == ((r - 1) \div in.cols) * in.side
    IN  \A i \in 1..Len(in.rings[r]) :
           LET p == in.pts[in.rings[r][i]]
           IN  left <= X(p) /\ X(p) < left + in.side /\ low <= Y(p) /\ Y(p) < low + in.side

AreCells(in) ==
    \A r \in 1..Len(in.rings) :
        /\ InCell(in, r)
        /\ ValidInput([ v \in {in.rings[r][i] : i \in 1..Len(in.rings[r])} |-> in.pts[v] ], << in.rings[r] >>)

\* p is on the same strict side of every edge of the ring as that ring's second turn
TurnAt(in, ring, i) == Sign(Cross(in.pts[ring[PrevIdx(ring, i)]], in.pts[ring[i]], in.pts[ring[NextIdx(ring, i)]]))
StrictlyInside(in, ring, p) ==
    \A i \in 1..Len(ring) : Sign(Cross(in.pts[ring[i]], in.pts[ring[NextIdx(ring, i)]], p)) = TurnAt(in, ring, 2)

IsNest(in) ==
    \A r \in 1..Len(in.rings) :
        LET ring == in.rings[r] IN
        /\ Len(ring) \in {3, 4}
        /\ \A i \in 1..Len(ring) : TurnAt(in, ring, i) # 0 /\ TurnAt(in, ring, i) = TurnAt(in, ring, 2)
        /\ r > 1 => \A i \in 1..Len(ring) : StrictlyInside(in, in.rings[r - 1], in.pts[ring[i]])

Certified(in) ==
    CASE in.kind = "strip" -> IsStrip(in)
      [] in.kind = "cells" -> AreCells(in)
      [] in.kind = "nest" -> IsNest(in)

-----------------------------------------------------------------------------
Iota(n) == [ i \in 1..n |-> i ]
SumTo(n, f(_)) == FoldLeft(LAMBDA acc, i : acc + f(i), 0, Iota(n))

\* Twice the signed area of a ring
RingArea(in, ring) == SumTo(Len(ring), LAMBDA i : Cross(in.pts[ring[1]], in.pts[ring[i]], in.pts[ring[NextIdx(ring, i)]]))

\* The number of rings ring r lies in, itself included, is odd: the interior begins at its inner side.
Outer(in, r) == in.kind # "nest" \/ r % 2 = 1

\* Geometry!InteriorBoundary of a certified input
\* (Not as the union over the rings: TLC takes quadratic time for one of many sets.)
Boundary(in) ==
    LET Forward(r) == (RingArea(in, in.rings[r]) > 0) = Outer(in, r)
        Side(r, i, forward) == LET ring == in.rings[r] IN IF forward THEN <<ring[i], ring[NextIdx(ring, i)]>> ELSE <<ring[NextIdx(ring, i)], ring[i]>>
        longest == FoldLeft(LAMBDA acc, ring : IF Len(ring) > acc THEN Len(ring) ELSE acc, 0, in.rings)
    IN  IF Len(in.rings) = 1 THEN LET f == Forward(1) IN { Side(1, i, f) : i \in 1..Len(in.rings[1]) }
        ELSE { Side(x[1], x[2], Forward(x[1])) : x \in { y \in (1..Len(in.rings)) \X (1..longest) : y[2] <= Len(in.rings[y[1]]) } }

Abs(i) == IF i < 0 THEN -i ELSE i

\* Twice the area of the interior, and of the triangles
InteriorArea(in) == SumTo(Len(in.rings), LAMBDA r : (IF Outer(in, r) THEN 1 ELSE -1) * Abs(RingArea(in, in.rings[r])))
TriangleArea(in, ts) == SumTo(Len(ts), LAMBDA i : Abs(Cross(in.pts[ts[i][1]], in.pts[ts[i][2]], in.pts[ts[i][3]])))
=============================================================================
