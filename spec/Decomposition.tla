--------------------------- MODULE Decomposition ---------------------------
(* The trapezoidal decomposition while segments are being inserted.          *)
(*                                                                           *)
(* The state is the set of segments inserted so far; each step inserts one   *)
(* more edge of the input.  Everything else is a function of that set: the   *)
(* cells cut from the plane by the segments and by the horizontal lines      *)
(* through their endpoints, extended to the next segment on either side.     *)
(* Heights are compared by (y, x), see Geometry.                             *)
(*                                                                           *)
(* A segment is <<lo, hi>>, a pair of vertex ids; NoSegment and NoVertex     *)
(* stand for the absence of a side.                                          *)
EXTENDS Geometry

VARIABLES input,   \* [pts, rings], constant
          segs     \* the segments inserted so far

NoSegment == <<>>
NoVertex == 0

Pts == input.pts
Edges == UpwardEdges(Pts, input.rings)
EndsOf(S) == { s[1] : s \in S } \cup { s[2] : s \in S }

\* The segment s is present just above the height of p.
Above(s, p) == LowerEq(Pts[s[1]], p) /\ Lower(p, Pts[s[2]])
LeftOf(s, p) == Cross(Pts[s[1]], Pts[s[2]], p) < 0      \* s passes left of p
RightOf(s, p) == Cross(Pts[s[1]], Pts[s[2]], p) > 0

Rightmost(S) == IF S = {} THEN NoSegment ELSE CHOOSE s \in S : \A t \in S : t = s \/ EdgeLeftOf(Pts, t, s)
Leftmost(S) == IF S = {} THEN NoSegment ELSE CHOOSE s \in S : \A t \in S : t = s \/ EdgeLeftOf(Pts, s, t)

\* p lies between l and r or on one of them (at a height where both are present).
Between(l, r, p) == (l = NoSegment \/ ~RightOf(l, p)) /\ (r = NoSegment \/ ~LeftOf(r, p))

\* The first vertex above v that ends the cell between l and r.
Ceiling(S, v, l, r) ==
    LET C == { w \in EndsOf(S) : Lower(Pts[v], Pts[w]) /\ Between(l, r, Pts[w]) }
    IN  IF C = {} THEN NoVertex ELSE CHOOSE w \in C : \A x \in C : LowerEq(Pts[w], Pts[x])

Cell(S, v, l, r) == [left |-> l, right |-> r, down |-> v, up |-> Ceiling(S, v, l, r)]

\* The cells whose floor is the line through v.
CellsOn(S, v) ==
    LET active == { s \in S : Above(s, Pts[v]) }
        own == { s \in active : s[1] = v }
        l == Rightmost({ s \in active \ own : LeftOf(s, Pts[v]) })
        r == Leftmost({ s \in active \ own : RightOf(s, Pts[v]) })
        next(s) == LET R == { t \in own : t # s /\ EdgeLeftOf(Pts, s, t) } IN IF R = {} THEN r ELSE Leftmost(R)
    IN  IF own = {} THEN { Cell(S, v, l, r) }
        ELSE { Cell(S, v, l, Leftmost(own)) } \cup { Cell(S, v, s, next(s)) : s \in own }

Lowest(S) == IF S = {} THEN NoVertex ELSE CHOOSE v \in EndsOf(S) : \A w \in EndsOf(S) : LowerEq(Pts[v], Pts[w])

Cells(S) == { [left |-> NoSegment, right |-> NoSegment, down |-> NoVertex, up |-> Lowest(S)] }
            \cup UNION { CellsOn(S, v) : v \in EndsOf(S) }

\* p, which lies on no segment, is in the cell c.
Inside(c, p) == /\ c.down = NoVertex \/ Lower(Pts[c.down], p)
                /\ c.up = NoVertex \/ Lower(p, Pts[c.up])
                /\ c.left = NoSegment \/ LeftOf(c.left, p)
                /\ c.right = NoSegment \/ RightOf(c.right, p)

-----------------------------------------------------------------------------
Insert(s) == /\ s \in Edges \ segs
             /\ segs' = segs \cup {s}
             /\ UNCHANGED input

Next == \E s \in Edges : Insert(s)
=============================================================================
