------------------------------ MODULE FloatsMC ------------------------------
(* Exact, as Floats defines it, is enough: in a format small enough to try   *)
(* everything, for any three points of a grid and any map, the usual ways of *)
(* deciding the side of a line and the order of heights give, with every     *)
(* operation rounded, what they give on the integers.                        *)
EXTENDS Floats, FiniteSets, TLC

CONSTANTS Grid,     \* the coordinates
          Lowest, Highest,   \* the exponents k range from -Lowest to Highest
          Shifts,   \* the exponents of translations
          Shears,   \* the factors a
          P

Format == [p |-> P, emin |-> -6, emax |-> 7]

Shift == {<<0, 0>>} \cup ({-1, 1} \X Shifts)

VARIABLES pts, map

None == <<>>

Init == /\ pts = None
        /\ map \in [k : -Lowest..Highest, a : Shears, tx : Shift, ty : Shift]

Next == /\ pts = None
        /\ pts' \in [1..3 -> Grid \X Grid]
        /\ map' = map

Spec == Init /\ [][Next]_<<pts, map>>

-----------------------------------------------------------------------------
(* Binary numbers <<m, e>>; Infinite if out of range *)
Infinite == <<0, 99>>
RECURSIVE Pow2(_)
Pow2(n) == IF n = 0 THEN 1 ELSE 2 * Pow2(n - 1)

\* m / 2^n, to nearest, ties to even
Quotient(m, n) == LET d == Pow2(n)  q == m \div d  r == m % d
                  IN  IF 2 * r > d \/ (2 * r = d /\ q % 2 = 1) THEN q + 1 ELSE q

Round(x) ==
    IF x = Infinite THEN x
    ELSE LET drop == Max2(0, Max2(BitLength(x[1]) - Format.p, Format.emin - x[2]))
             y == <<Quotient(x[1], drop), x[2] + drop>>
         IN  IF y[1] # 0 /\ BitLength(y[1]) + y[2] > Format.emax THEN Infinite ELSE y

Aligned(x, e) == x[1] * Pow2(x[2] - e)
Lower2(x, y) == IF x[2] < y[2] THEN x[2] ELSE y[2]
Minus(x, y) == IF Infinite \in {x, y} THEN Infinite ELSE LET e == Lower2(x, y) IN Round(<<Aligned(x, e) - Aligned(y, e), e>>)
Times(x, y) == IF Infinite \in {x, y} THEN Infinite ELSE Round(<<x[1] * y[1], x[2] + y[2]>>)
Less(x, y) == LET e == Lower2(x, y) IN Aligned(x, e) < Aligned(y, e)
Same(x, y) == LET e == Lower2(x, y) IN Aligned(x, e) = Aligned(y, e)

Amount(t) == IF t[1] = 0 THEN 0 ELSE t[1] * Pow2(t[2])
\* The point as the format holds it
Placed(q) == <<Round(<<q[1] + map.a * q[2] + Amount(map.tx), map.k>>), Round(<<q[2] + Amount(map.ty), map.k>>)>>

X(q) == q[1]
Y(q) == q[2]
Cross(a, b, c) == (X(b) - X(a)) * (Y(c) - Y(a)) - (Y(b) - Y(a)) * (X(c) - X(a))

A == Placed(pts[1])
B == Placed(pts[2])
C == Placed(pts[3])

\* c is left of the line from a up to b, by comparing two products
Compared == Less(Times(Minus(X(A), X(B)), Minus(Y(C), Y(B))), Times(Minus(Y(A), Y(B)), Minus(X(C), X(B))))
\* the same by the sign of a determinant
Determinant == Less(<<0, 0>>, Minus(Times(Minus(X(B), X(A)), Minus(Y(C), Y(A))), Times(Minus(Y(B), Y(A)), Minus(X(C), X(A)))))

Applicable == pts # None /\ Exact(Format, map, pts)

Enough ==
    Applicable =>
       /\ Infinite \notin { X(A), Y(A), X(B), Y(B), X(C), Y(C) }
       /\ Compared <=> Cross(pts[1], pts[2], pts[3]) > 0
       /\ Determinant <=> Cross(pts[1], pts[2], pts[3]) > 0
       /\ Less(Y(A), Y(B)) <=> Y(pts[1]) < Y(pts[2])
       /\ Same(Y(A), Y(B)) <=> Y(pts[1]) = Y(pts[2])
       /\ Same(Y(A), Y(B)) => (Less(X(A), X(B)) <=> X(pts[1]) < X(pts[2]))

\* Not vacuous
Reached == ~(Applicable /\ map.k = -3 /\ map.a # 0 /\ map.tx[1] # 0 /\ Cross(pts[1], pts[2], pts[3]) > 0)
=============================================================================
