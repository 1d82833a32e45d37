------------------------------- MODULE Inputs -------------------------------
(* A list of polygons as it presents itself: iterated, looked up, counted.   *)
(*                                                                           *)
(* polys is what the list holds: for each polygon its vertices in the        *)
(* polygon's own order, each with the key by which the polygon stores it     *)
(* (a record [k, v]).  Keys are the polygon's business: a container's are    *)
(* 0, 1, 2, ...; those of a user's own polygon need not be.                  *)
(*                                                                           *)
(* The index of a vertex is <<key>> in a single polygon, <<i, key>> in the   *)
(* i-th (from 0) of several.  Indices may be substituted, component by       *)
(* component: sub.mul * c + sub.add.                                         *)
(*                                                                           *)
(* Any number of iterations may be under way at a time.  Of each, the state  *)
(* is [given, cut, over]: how many vertices it has given, whether there was  *)
(* a separator since the last one, and whether it has ended.                 *)
EXTENDS Integers, Sequences, FiniteSets

CONSTANT None
VARIABLES polys, single, sub, iters

Substituted(index) == [i \in 1..Len(index) |-> sub.mul * index[i] + sub.add]
Index(p, j) == Substituted(IF single THEN <<polys[p][j].k>> ELSE <<p - 1, polys[p][j].k>>)

\* The place of the n-th vertex: its polygon, and where in it
RECURSIVE PlaceFrom(_, _)
PlaceFrom(n, p) == IF p > Len(polys) THEN None
                   ELSE IF n <= Len(polys[p]) THEN <<p, n>>
                   ELSE PlaceFrom(n - Len(polys[p]), p + 1)
Place(n) == PlaceFrom(n, 1)

RECURSIVE CountTo(_)
CountTo(p) == IF p = 0 THEN 0 ELSE Len(polys[p]) + CountTo(p - 1)
Total == CountTo(Len(polys))

\* Do the n-th and the next vertex belong to different polygons?
Boundary(n) == n > 0 /\ n < Total /\ Place(n)[1] # Place(n + 1)[1]
Margin(n) == n = 0 \/ n = Total

TypeOK == \A i \in DOMAIN iters : iters[i].given \in 0..Total

\* The requirements on each step.  A separator is needed between polygons; more of them, and those before the
\* first or after the last polygon, mean nothing.
BrokenVertex(i, index) ==
    LET n == iters[i].given IN
    IF n = Total \/ iters[i].over THEN {"order"}
    ELSE (IF index = Index(Place(n + 1)[1], Place(n + 1)[2]) THEN {} ELSE {"order"})
         \cup (IF Boundary(n) /\ ~iters[i].cut THEN {"separation"} ELSE {})

BrokenSeparator(i) == IF Boundary(iters[i].given) \/ Margin(iters[i].given) THEN {} ELSE {"separation"}

BrokenEnd(i) == IF iters[i].given = Total THEN {} ELSE {"order"}

BrokenCount(n) == IF n = Total THEN {} ELSE {"count"}

\* The vertex at an index (0: none)
VertexAt(index) ==
    LET hits == { <<p, j>> \in UNION { { <<p, j>> : j \in 1..Len(polys[p]) } : p \in 1..Len(polys) } : Index(p, j) = index }
    IN  IF hits = {} THEN 0 ELSE LET h == CHOOSE h \in hits : TRUE IN polys[h[1]][h[2]].v

BrokenGet(index, v) == IF v # 0 /\ VertexAt(index) = v THEN {} ELSE {"lookup"}

\* Contents for which all this makes sense: no two vertices of a polygon under the same key
Proper == /\ single => Len(polys) = 1
          /\ \A p \in 1..Len(polys) : \A i, j \in 1..Len(polys[p]) : i # j => polys[p][i].k # polys[p][j].k /\ polys[p][i].v # polys[p][j].v

EffOpen(i) == iters' = [x \in DOMAIN iters \cup {i} |-> IF x = i THEN [given |-> 0, cut |-> FALSE, over |-> FALSE] ELSE iters[x]]
EffVertex(i) == iters' = [iters EXCEPT ![i] = [@ EXCEPT !.given = IF @ < Total THEN @ + 1 ELSE @, !.cut = FALSE]]
EffSeparator(i) == iters' = [iters EXCEPT ![i].cut = TRUE]
EffEnd(i) == iters' = [iters EXCEPT ![i].over = TRUE]
=============================================================================
