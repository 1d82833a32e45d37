------------------------------- MODULE Seidel -------------------------------
(* The incremental construction of the trapezoidation, as the library does   *)
(* it: a graph of trapezoids and vertices ("nexuses") and a search structure *)
(* are updated as the edges of one ring after another are inserted, in any   *)
(* order within a ring.  At any time the search positions remembered for the *)
(* ring's pending vertices may be refreshed by walking along the ring; the   *)
(* library does this at a few moments that depend on the ring's size, here   *)
(* it may happen after any insertion.                                        *)
(*                                                                           *)
(* The structure is checked (SeidelMC) to be the one of Decomposition after  *)
(* each insertion.                                                           *)
EXTENDS Geometry, TLC

VARIABLES input,   \* [pts, rings], constant
          ring,    \* the ring being inserted
          todo,    \* the edges of that ring yet to be inserted: i stands for the edge from the i-th vertex to the next
          st       \* the structure, see Empty

NoIdx == 0
NoError == "none"

SPts == input.pts

\* The side test, with its case distinction for equal heights.
IsLeft(lo, hi, p) ==
    IF Y(p) = Y(hi) THEN X(p) < X(hi)
    ELSE IF Y(p) = Y(lo) THEN X(p) < X(lo)
    ELSE (X(lo) - X(hi)) * (Y(p) - Y(hi)) < (Y(lo) - Y(hi)) * (X(p) - X(hi))

-----------------------------------------------------------------------------
(* Structure.                                                                *)
(*   ns   nexuses  [v, upleft, downleft, divs]; divs are at most two         *)
(*        dividers [s, right, up], each a segment and the trapezoid right    *)
(*        of it, above (up) or below the nexus                               *)
(*   ss   segments [lo, hi] (nexuses)                                        *)
(*   ts   trapezoids [left, right, down, up, sink]                           *)
(*   qs   search nodes: a sink [kind, t], or a branch [kind, l, r, a, b] at  *)
(*        the segment a b (kind "x") or at the vertex a (kind "y")           *)
(*   loc  vertex -> [in, i]: the nexus i of an inserted vertex, or the       *)
(*        search node i from where to look for a pending one                 *)

Empty == [ns |-> <<>>, ss |-> <<>>,
          ts |-> << [left |-> NoIdx, right |-> NoIdx, down |-> NoIdx, up |-> NoIdx, sink |-> 1] >>,
          qs |-> << [kind |-> "sink", t |-> 1] >>,
          loc |-> [v \in DOMAIN SPts |-> [in |-> FALSE, i |-> 1]],
          err |-> NoError]

Failed(s, e) == [s EXCEPT !.err = e]

PointOf(s, n) == SPts[s.ns[n].v]
LeftOfSegment(s, k, p) == IsLeft(PointOf(s, s.ss[k].lo), PointOf(s, s.ss[k].hi), p)

RECURSIVE Find(_, _, _)
\* The sink reached by searching for p from the node q.
Find(s, q, p) ==
    LET n == s.qs[q] IN
    CASE n.kind = "sink" -> q
      [] n.kind = "x"    -> Find(s, IF IsLeft(SPts[n.a], SPts[n.b], p) THEN n.l ELSE n.r, p)
      [] n.kind = "y"    -> Find(s, IF LowerEq(p, SPts[n.a]) THEN n.l ELSE n.r, p)

Dividers(n, up) == SelectSeq(n.divs, LAMBDA d : d.up = up)

Connected(n, t) == n.upleft = t \/ n.downleft = t \/ \E i \in 1..Len(n.divs) : n.divs[i].right = t
ReplaceIn(n, old, new) ==
    IF n.upleft = old THEN [n EXCEPT !.upleft = new]
    ELSE IF n.downleft = old THEN [n EXCEPT !.downleft = new]
    ELSE LET i == CHOOSE k \in 1..Len(n.divs) : n.divs[k].right = old /\ \A j \in 1..(k - 1) : n.divs[j].right # old
         IN  [n EXCEPT !.divs[i].right = new]
Replace(s, n, old, new) ==
    IF s.err # NoError THEN s
    ELSE IF ~Connected(s.ns[n], old) THEN Failed(s, "not connected")
    ELSE [s EXCEPT !.ns[n] = ReplaceIn(@, old, new)]

-----------------------------------------------------------------------------
(* Inserting a vertex: the trapezoid which contains it is split by a         *)
(* horizontal line.                                                          *)

AddVertex(s, v) ==
    IF s.err # NoError THEN s
    ELSE LET q  == Find(s, s.loc[v].i, SPts[v])
             t  == s.qs[q].t
             tn == Len(s.ts) + 1
             n  == Len(s.ns) + 1
             qd == Len(s.qs) + 1
             old == s.ts[t]
             s1 == [s EXCEPT
                      !.ns = Append(@, [v |-> v, upleft |-> tn, downleft |-> t, divs |-> <<>>]),
                      !.qs = [@ EXCEPT ![q] = [kind |-> "y", l |-> qd, r |-> qd + 1, a |-> v, b |-> v]]
                             \o << [kind |-> "sink", t |-> t], [kind |-> "sink", t |-> tn] >>,
                      !.ts = Append([@ EXCEPT ![t].up = n, ![t].sink = qd],
                                    [old EXCEPT !.down = n, !.sink = qd + 1]),
                      !.loc[v] = [in |-> TRUE, i |-> n]]
         IN  IF old.up = NoIdx THEN s1 ELSE Replace(s1, old.up, t, tn)

-----------------------------------------------------------------------------
(* Inserting a segment: the trapezoids which it crosses are split from top   *)
(* to bottom, and neighbours which are no longer separated are merged.       *)

\* The trapezoid below the nexus n into which the segment k descends.
DownTowards(s, n, k) ==
    LET D == Dividers(s.ns[n], FALSE) IN
    IF D = <<>> THEN s.ns[n].downleft
    ELSE LET r == D[Len(D)]
             p == IF s.ss[k].hi = n THEN PointOf(s, s.ss[r.s].lo) ELSE PointOf(s, n)
         IN  IF LeftOfSegment(s, k, p) THEN r.right ELSE s.ns[n].downleft

\* The nexus n becomes an endpoint of the segment k; t is the trapezoid right of it.
Attach(s, n, k, t) ==
    IF s.err # NoError THEN s
    ELSE LET d == [s |-> k, right |-> t, up |-> s.ss[k].lo = n]
             D == s.ns[n].divs
         IN  CASE Len(D) = 0 -> [s EXCEPT !.ns[n].divs = <<d>>]
               [] Len(D) = 1 ->
                    LET first == IF D[1].up = d.up
                                 THEN LeftOfSegment(s, D[1].s, PointOf(s, IF d.up THEN s.ss[k].hi ELSE s.ss[k].lo))
                                 ELSE d.up
                    IN  [s EXCEPT !.ns[n].divs = IF first THEN <<d, D[1]>> ELSE <<D[1], d>>]
               [] OTHER -> Failed(s, "two segments already")

RECURSIVE Descend(_, _, _, _, _)
\* The segment k has been inserted down to the nexus n; ul and ur are the trapezoids on its sides there.
Descend(s, k, n, ul, ur) ==
    LET lo == s.ss[k].lo IN
    IF s.err # NoError THEN s
    ELSE IF n = lo THEN Attach(s, lo, k, ur)
    ELSE LET t  == DownTowards(s, n, k)
             m  == s.ts[t].down
             q  == s.ts[t].sink
             qn == Len(s.qs) + 1
             a  == s.ns[lo].v
             b  == s.ns[s.ss[k].hi].v
         IN  IF m = NoIdx THEN Failed(s, "lower end not found")
             ELSE IF s.ts[t].right = s.ts[ur].right
             THEN LET s1 == [s EXCEPT
                               !.qs = Append([@ EXCEPT ![q] = [kind |-> "x", l |-> qn, r |-> s.ts[ur].sink, a |-> a, b |-> b]], @[q]),
                               !.ts = [@ EXCEPT ![t].sink = qn, ![t].right = k, ![ur].down = m]]
                      s2 == IF m # lo /\ ~LeftOfSegment(s1, k, PointOf(s1, m)) THEN Replace(s1, m, t, ur) ELSE s1
                  IN  Descend(s2, k, m, t, ur)
             ELSE IF s.ts[t].left = s.ts[ul].left
             THEN LET s1 == [s EXCEPT
                               !.qs = Append([@ EXCEPT ![q] = [kind |-> "x", l |-> s.ts[ul].sink, r |-> qn, a |-> a, b |-> b]], @[q]),
                               !.ts = [@ EXCEPT ![t].sink = qn, ![t].left = k, ![ul].down = m]]
                      s2 == IF m = lo \/ LeftOfSegment(s1, k, PointOf(s1, m)) THEN Replace(s1, m, t, ul) ELSE s1
                  IN  Descend(s2, k, m, ul, t)
             ELSE Failed(s, "no matching side")

AddSegment(s0, lo, hi) ==
    IF s0.err # NoError THEN s0
    ELSE LET k  == Len(s0.ss) + 1
             s  == [s0 EXCEPT !.ss = Append(@, [lo |-> lo, hi |-> hi])]
             t  == DownTowards(s, hi, k)
             tn == Len(s.ts) + 1
             q  == s.ts[t].sink
             ql == Len(s.qs) + 1
             m  == s.ts[t].down
             s1 == [s EXCEPT
                      !.qs = [@ EXCEPT ![q] = [kind |-> "x", l |-> ql, r |-> ql + 1, a |-> s.ns[lo].v, b |-> s.ns[hi].v]]
                             \o << [kind |-> "sink", t |-> t], [kind |-> "sink", t |-> tn] >>,
                      !.ts = Append([@ EXCEPT ![t].right = k, ![t].sink = ql], [@[t] EXCEPT !.left = k, !.sink = ql + 1])]
             s2 == Attach(s1, hi, k, tn)
             s3 == IF m # NoIdx /\ m # lo /\ ~LeftOfSegment(s2, k, PointOf(s2, m)) THEN Replace(s2, m, t, tn) ELSE s2
         IN  IF m = NoIdx THEN Failed(s, "lower end not found") ELSE Descend(s3, k, m, t, tn)

\* The edge from v to w, inserting its pending endpoints first, the lower one before the other.
AddEdge(s, v, w) ==
    LET lo == IF Lower(SPts[v], SPts[w]) THEN v ELSE w
        hi == IF lo = v THEN w ELSE v
        s1 == IF s.loc[lo].in THEN s ELSE AddVertex(s, lo)
        s2 == IF s1.loc[hi].in THEN s1 ELSE AddVertex(s1, hi)
    IN  IF s2.err # NoError THEN s2 ELSE AddSegment(s2, s2.loc[lo].i, s2.loc[hi].i)

-----------------------------------------------------------------------------
(* Refreshing the search positions of the pending vertices: a walk along the *)
(* ring from an inserted vertex, through the trapezoids.                     *)

\* Leaving the nexus n for the point p: the trapezoid beyond n on p's side.
TowardsPoint(s, n, up, p) ==
    LET D == Dividers(s.ns[n], up)
        l == IF up THEN s.ns[n].upleft ELSE s.ns[n].downleft
    IN  IF D = <<>> THEN l ELSE IF LeftOfSegment(s, D[1].s, p) THEN l ELSE D[1].right

\* Passing the nexus n on the way from a to b.
PassingNexus(s, n, up, a, b) ==
    LET D == Dividers(s.ns[n], up)
        l == IF up THEN s.ns[n].upleft ELSE s.ns[n].downleft
    IN  IF D = <<>> THEN l
        ELSE IF (IF up THEN IsLeft(a, b, PointOf(s, n)) ELSE IsLeft(b, a, PointOf(s, n))) THEN D[Len(D)].right ELSE l

RECURSIVE WalkTo(_, _, _, _, _)
\* From the trapezoid t, on the way from a to b: the trapezoid which contains b.
WalkTo(s, t, up, a, b) ==
    LET n == IF up THEN s.ts[t].up ELSE s.ts[t].down IN
    IF n = NoIdx \/ (IF up THEN Lower(b, PointOf(s, n)) ELSE Lower(PointOf(s, n), b)) THEN t
    ELSE WalkTo(s, PassingNexus(s, n, up, a, b), up, a, b)

RECURSIVE Refresh(_, _, _, _, _, _)
\* The i-th vertex of the ring is next, `left` pending vertices are left; the walk stands at the vertex `at` in the trapezoid t
\* (NoIdx if `at` is inserted).
Refresh(s, r, i, left, at, t) ==
    IF left = 0 THEN s
    ELSE LET v == r[i]  j == NextIdx(r, i) IN
         IF s.loc[v].in THEN Refresh(s, r, j, left, v, NoIdx)
         ELSE LET up == Lower(SPts[at], SPts[v])
                  t0 == IF t = NoIdx THEN TowardsPoint(s, s.loc[at].i, up, SPts[v]) ELSE t
                  t1 == WalkTo(s, t0, up, SPts[at], SPts[v])
              IN  Refresh([s EXCEPT !.loc[v].i = s.ts[t1].sink], r, j, left - 1, v, t1)

PendingIn(s, r) == { i \in 1..Len(r) : ~s.loc[r[i]].in }

RefreshFrom(s, r, i) == Refresh(s, r, NextIdx(r, i), Cardinality(PendingIn(s, r)), r[i], NoIdx)

-----------------------------------------------------------------------------
(* Steps.                                                                    *)

Ring == input.rings[ring]

StartOf(x) == /\ input = x
              /\ ring = 1
              /\ todo = 1..Len(x.rings[1])
              /\ st = Empty

InsertEdge(i, refresh) ==
    /\ st.err = NoError
    /\ i \in todo
    /\ LET s == AddEdge(st, Ring[i], Ring[NextIdx(Ring, i)]) IN
       st' = IF refresh /\ s.err = NoError THEN RefreshFrom(s, Ring, i) ELSE s
    /\ todo' = todo \ {i}
    /\ UNCHANGED <<input, ring>>

NextRing ==
    /\ st.err = NoError
    /\ todo = {}
    /\ ring < Len(input.rings)
    /\ ring' = ring + 1
    /\ todo' = 1..Len(input.rings[ring + 1])
    /\ UNCHANGED <<input, st>>

Next == NextRing \/ \E i \in 1..Len(Ring), refresh \in BOOLEAN : InsertEdge(i, refresh)

-----------------------------------------------------------------------------
(* What it stands for.                                                       *)

\* The segment and vertex ids of Decomposition.
SegmentOf(k) == IF k = NoIdx THEN <<>> ELSE << st.ns[st.ss[k].lo].v, st.ns[st.ss[k].hi].v >>
VertexOf(n) == IF n = NoIdx THEN 0 ELSE st.ns[n].v
Inserted == { SegmentOf(k) : k \in 1..Len(st.ss) }
CellOf(t) == [left |-> SegmentOf(t.left), right |-> SegmentOf(t.right), down |-> VertexOf(t.down), up |-> VertexOf(t.up)]
=============================================================================
