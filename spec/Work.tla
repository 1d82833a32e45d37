-------------------------------- MODULE Work --------------------------------
(* How much work runs may take.  The state is a table of measured runs: for  *)
(* each shape and size, how many runs there were and the sum of their work   *)
(* per vertex (vertex accesses and coordinate comparisons, in hundredths).   *)
(* Sizes are quadrupled from one to the next.                                *)
(*                                                                           *)
(* The documented cost for a ring of n vertices is O(n log* n): since log*   *)
(* does not change over the sizes measured, the work per vertex must tend    *)
(* to a constant.  It approaches it from below (small rings have little      *)
(* work), so some growth is allowed, less than log n would cause: for n log n *)
(* the work per vertex grows by log(64 n)/log(n) when n grows 64-fold, which *)
(* is 1.6 from n = 2^10.                                                     *)
(*                                                                           *)
(* The same holds for each ring of a set; but where among the other rings a  *)
(* ring lies must be found out from the start, at a cost logarithmic in      *)
(* their number.  So in sets of many small rings the work per vertex may     *)
(* grow like log n, whatever the order in which the rings are listed.        *)
EXTENDS Integers, Sequences, FiniteSets

VARIABLE table   \* <<shape, size>> -> [runs, sum]

\* in percent
StepLimit == 135        \* one shape, from one size to the next
ShapeLimit == 150       \* one shape, from the smallest size to the largest
TotalLimit == 130       \* all shapes together, from the smallest size to the largest

\* shapes which are sets of many small rings, and the same limits for them
Sets == {"set-row", "set-column", "set-diagonal", "set-grid", "set-nested", "set-holes", "set-stars"}
SetStepLimit == 160
SetShapeLimit == 220
SetTotalLimit == 190

Empty == [k \in {} |-> [runs |-> 0, sum |-> 0]]

Measure(shape, size, w) ==
    LET k == <<shape, size>>
        old == IF k \in DOMAIN table THEN table[k] ELSE [runs |-> 0, sum |-> 0]
    IN  table' = [j \in DOMAIN table \cup {k} |-> IF j = k THEN [runs |-> old.runs + 1, sum |-> old.sum + w] ELSE table[j]]

Shapes == { k[1] : k \in DOMAIN table }
Sizes == { k[2] : k \in DOMAIN table }
Smallest == CHOOSE n \in Sizes : \A m \in Sizes : n <= m
Greatest == CHOOSE n \in Sizes : \A m \in Sizes : n >= m

Complete == \A s \in Shapes : \A n \in Sizes : <<s, n>> \in DOMAIN table

Mean(s, n) == table[<<s, n>>].sum \div table[<<s, n>>].runs

Rings == Shapes \ Sets
ManyRings == Shapes \cap Sets

RECURSIVE SumOver(_, _)
SumOver(S, n) == IF S = {} THEN 0 ELSE LET s == CHOOSE x \in S : TRUE IN Mean(s, n) + SumOver(S \ {s}, n)

Within(after, before, limit) == after <= (before * limit) \div 100

\* A shape for which the work has grown too much from one size to the next.  Known before the table is complete.
TooSteep == \E k \in DOMAIN table : LET s == k[1]  n == k[2]
                                    IN  <<s, 4 * n>> \in DOMAIN table /\ ~Within(Mean(s, 4 * n), Mean(s, n), IF s \in Sets THEN SetStepLimit ELSE StepLimit)

NearLinear ==
    /\ ~TooSteep
    /\ \A s \in Shapes : Within(Mean(s, Greatest), Mean(s, Smallest), IF s \in Sets THEN SetShapeLimit ELSE ShapeLimit)
    /\ Within(SumOver(Rings, Greatest), SumOver(Rings, Smallest), TotalLimit)
    /\ Within(SumOver(ManyRings, Greatest), SumOver(ManyRings, Smallest), SetTotalLimit)
=============================================================================
