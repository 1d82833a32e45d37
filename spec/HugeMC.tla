------------------------------- MODULE HugeMC -------------------------------
(* The certificates of Huge imply the documented preconditions, and their     *)
(* boundary and area are those of the even-odd rule, for all small inputs.    *)
EXTENDS Huge, TLC

CONSTANTS MaxColumns,  \* of strips
          MaxHeight

VARIABLE in

vars == in

Base(kind, pts, rings) ==
    { [ pts |-> pts, rings |-> rings, kind |-> kind, swap |-> s, rot |-> [ r \in 1..Len(rings) |-> t ], rev |-> [ r \in 1..Len(rings) |-> b ], side |-> 3, cols |-> 2 ]
      : s \in BOOLEAN, b \in BOOLEAN, t \in 0..2 }

Swapped(p, s) == IF s THEN <<p[2], p[1]>> ELSE p

\* Candidates, certified or not: a ring through columns of two points each, in the order described by rot and rev
Strips ==
    UNION { LET n == 2 * m IN
            { [ x EXCEPT !.pts = [ v \in 1..n |-> \* where is vertex v described?
                    LET i == CHOOSE j \in 0..(n - 1) : Described(x, 1, j) = v
                        c == IF i < m THEN i ELSE n - 1 - i
                    IN  Swapped(<<c, IF i < m THEN lo[c + 1] ELSE hi[c + 1]>>, x.swap) ] ]
              : x \in Base("strip", Iota(n), << Iota(n) >>), lo \in [1..m -> 0..MaxHeight], hi \in [1..m -> 0..MaxHeight] }
          : m \in 2..MaxColumns }

Plain(kind, pts, rings) ==
    [ pts |-> pts, rings |-> rings, kind |-> kind, swap |-> FALSE, rot |-> [ r \in 1..Len(rings) |-> 0 ], rev |-> [ r \in 1..Len(rings) |-> FALSE ], side |-> 3, cols |-> 2 ]

Square == (0..2) \X (0..2)
Triangles == { << a, <<1, 2>>, c >> : a \in Square, c \in Square }

Cells ==
    { Plain("cells", [ v \in 1..6 |-> IF v <= 3 THEN t[v] ELSE <<u[v - 3][1] + dx, u[v - 3][2]>> ], << <<1, 2, 3>>, <<4, 5, 6>> >>)
      : t \in Triangles, u \in Triangles, dx \in {2, 3} }

Diamond(cx, cy, s) == << <<cx - s, cy>>, <<cx, cy - s>>, <<cx + s, cy>>, <<cx, cy + s>> >>
Box(cx, cy, s) == << <<cx - s, cy - s>>, <<cx + s, cy - s>>, <<cx + s, cy + s>>, <<cx - s, cy + s>> >>
Backwards(q, b) == IF b THEN << q[1], q[4], q[3], q[2] >> ELSE q

Nests ==
    LET Rings(s) == { Backwards(q, b) : q \in { Diamond(cx, cy, s) : cx \in 0..1, cy \in 0..1 } \cup { Box(cx, 0, s) : cx \in 0..1 }, b \in BOOLEAN } IN
    { Plain("nest", a \o b \o c, << <<1, 2, 3, 4>>, <<5, 6, 7, 8>>, <<9, 10, 11, 12>> >>) : a \in Rings(5), b \in Rings(3), c \in Rings(1) }

Init == in \in Strips \cup Cells \cup Nests
Spec == Init /\ [][FALSE]_vars

AreaOf(boundary) == \* shoelace over a set of directed edges
    LET RECURSIVE sum(_)
        sum(S) == IF S = {} THEN 0 ELSE LET e == CHOOSE x \in S : TRUE
                  IN  X(in.pts[e[1]]) * Y(in.pts[e[2]]) - X(in.pts[e[2]]) * Y(in.pts[e[1]]) + sum(S \ {e})
    IN  sum(boundary)

Sound == Certified(in) =>
    /\ ValidInput(in.pts, in.rings)
    /\ Boundary(in) = InteriorBoundary(in.pts, in.rings)
    /\ InteriorArea(in) = AreaOf(InteriorBoundary(in.pts, in.rings))

=============================================================================
