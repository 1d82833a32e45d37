------------------------------- MODULE Floats -------------------------------
(* Coordinates as a number format holds them.                                *)
(*                                                                           *)
(* A format is [p, emin, emax]: the numbers m * 2^e with |m| < 2^p, e >= emin *)
(* and |m * 2^e| < 2^emax.  An input in integer coordinates is placed in a   *)
(* format by a map                                                           *)
(*    (x, y)  ->  ((x + a*y) + tx, y + ty) * 2^k                             *)
(* where tx and ty are 0 or +-2^e, written as <<sign, e>>, e >= 0.           *)
(* Such a map keeps the heights of the points (with ties broken by x) and    *)
(* the side of a line a point is on, so it keeps everything a triangulation  *)
(* depends on, as long as the arithmetic is exact.                           *)
EXTENDS Integers, Sequences

Abs(n) == IF n < 0 THEN -n ELSE n
Max2(a, b) == IF a >= b THEN a ELSE b

RECURSIVE BitLength(_)
BitLength(n) == IF n = 0 THEN 0 ELSE 1 + BitLength(Abs(n) \div 2)

Largest(S) == CHOOSE x \in S : \A y \in S : y <= x
Least(S) == CHOOSE x \in S : \A y \in S : x <= y

F32 == [p |-> 24, emin |-> -149, emax |-> 128]
F64 == [p |-> 53, emin |-> -1074, emax |-> 1024]
\* Fractions of big integers
Wide == [p |-> 60, emin |-> -20, emax |-> 80]

FormatNamed(name) == CASE name = "f32" -> F32 [] name = "f64" -> F64 [] name = "wide" -> Wide

Sheared(q, map) == <<q[1] + map.a * q[2], q[2]>>

\* Upper bounds, in bits, for the differences and the values of the coordinates in units of 2^k.
DifferenceBits(pts, map) ==
    LET xs == { Sheared(pts[i], map)[1] : i \in 1..Len(pts) }  ys == { pts[i][2] : i \in 1..Len(pts) }
    IN  Max2(BitLength(Largest(xs) - Least(xs)), BitLength(Largest(ys) - Least(ys)))
\* c + t needs e + 1 bits if t = +-2^e and |c| <= 2^e.
AxisBits(cs, t) == LET c == BitLength(Largest({ Abs(x) : x \in cs }))
                   IN  IF t[1] = 0 THEN c ELSE IF c <= t[2] THEN t[2] + 1 ELSE c + 1
ValueBits(pts, map) ==
    Max2(AxisBits({ Sheared(pts[i], map)[1] : i \in 1..Len(pts) }, map.tx), AxisBits({ pts[i][2] : i \in 1..Len(pts) }, map.ty))

\* Coordinates, their differences and the products of the differences are numbers of the format.
Exact(format, map, pts) ==
    LET d == DifferenceBits(pts, map)  c == ValueBits(pts, map)
    IN  /\ c <= format.p
        /\ 2 * d <= format.p
        /\ map.k >= format.emin
        /\ 2 * map.k >= format.emin
        /\ map.k + c <= format.emax
        /\ 2 * (map.k + d) <= format.emax
=============================================================================
