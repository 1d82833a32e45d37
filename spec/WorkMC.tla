------------------------------- MODULE WorkMC -------------------------------
(* The verdict of Work, on costs of known growth with measurement errors:    *)
(* linear and n log* n costs (with a start-up effect) are accepted, and n    *)
(* log n for sets of rings; n log n for one ring, n^1.25 and n^2 are         *)
(* rejected.                                                                 *)
EXTENDS Integers, Sequences

VARIABLES cost, base, noise, n, table

W == INSTANCE Work

\* one shape and one set of rings
Names == {"a", "set-row"}
Costs == {"linear", "startup", "nlogn", "power", "quadratic", "one-shape", "set", "power-set"}

RECURSIVE Log2(_)
Log2(k) == IF k <= 1 THEN 0 ELSE 1 + Log2(k \div 2)

\* Work per vertex in hundredths.  `j` counts quadruplings from the smallest size.
Clean(c, s, k) ==
    LET j == (Log2(k) - 10) \div 2 IN
    CASE c = "linear" -> base
      [] c = "startup" -> base + (base * (IF j = 0 THEN 0 ELSE IF j = 1 THEN 8 ELSE IF j = 2 THEN 13 ELSE 16)) \div 100
      [] c = "nlogn" -> (base * Log2(k)) \div 10
      [] c = "power" -> (base * (IF j = 0 THEN 100 ELSE IF j = 1 THEN 141 ELSE IF j = 2 THEN 200 ELSE 282)) \div 100
      [] c = "quadratic" -> (base * k) \div 1024
      [] c = "one-shape" -> IF s = "a" THEN base ELSE (base * k) \div 1024
      [] c = "set" -> IF s = "a" THEN base ELSE (base * Log2(k)) \div 10
      [] c = "power-set" -> IF s = "a" THEN base ELSE (base * (IF j = 0 THEN 100 ELSE IF j = 1 THEN 141 ELSE IF j = 2 THEN 200 ELSE 282)) \div 100

Noisy(w, s, k) == w + (IF (Log2(k) \div 2 + (IF s = "a" THEN 0 ELSE 1)) % 2 = 0 THEN 1 ELSE -1) * ((w * noise) \div 100)

Init == /\ cost \in Costs
        /\ base \in {1000, 2500, 6000}
        /\ noise \in {0, 1, 2, 3}
        /\ n = 1024
        /\ table = W!Empty

Next == /\ n <= 65536
        /\ \E s \in Names :
              /\ <<s, n>> \notin DOMAIN table
              /\ s = "set-row" => <<"a", n>> \in DOMAIN table
              /\ W!Measure(s, n, Noisy(Clean(cost, s, n), s, n))
              /\ n' = IF s = "set-row" THEN 4 * n ELSE n
        /\ UNCHANGED <<cost, base, noise>>

Spec == Init /\ [][Next]_<<cost, base, noise, n, table>>

Verdict == n > 65536 => (W!NearLinear <=> cost \in {"linear", "startup", "set"})
=============================================================================
