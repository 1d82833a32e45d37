----------------------------- MODULE LongInputs -----------------------------
(* Inputs for lists of very many polygons or of very long ones, of which one *)
(* iteration is seen in stretches.  Vertices are numbered from 1.            *)
EXTENDS Integers, Sequences

VARIABLES
    blocks,   \* the list: c polygons of l vertices each, and so on
    next      \* the first polygon (from 0) of which this iteration has not given the vertices

RECURSIVE PolysTo(_), VertsTo(_)
PolysTo(b) == IF b = 0 THEN 0 ELSE blocks[b].c + PolysTo(b - 1)
VertsTo(b) == IF b = 0 THEN 0 ELSE blocks[b].c * blocks[b].l + VertsTo(b - 1)

\* Neighbouring blocks differ, so that a stretch belongs to one of them.
Proper == /\ \A b \in 1..Len(blocks) : blocks[b].c > 0 /\ blocks[b].l >= 0
          /\ \A b \in 1..(Len(blocks) - 1) : blocks[b].l # blocks[b + 1].l

Polys == PolysTo(Len(blocks))
Total == VertsTo(Len(blocks))

BlockOf(p) == CHOOSE b \in 1..Len(blocks) : PolysTo(b - 1) <= p /\ p < PolysTo(b)
LengthOf(p) == blocks[BlockOf(p)].l
Vertex(p, k) == VertsTo(BlockOf(p) - 1) + (p - PolysTo(BlockOf(p) - 1)) * LengthOf(p) + k + 1

\* The first polygon from p which has a vertex; Polys if there is none
RECURSIVE FirstFrom(_)
FirstFrom(p) == IF p >= Polys \/ LengthOf(p) > 0 THEN p ELSE FirstFrom(PolysTo(BlockOf(p)))

BrokenStretch(p, c, k, l, s) ==
    IF \/ p # FirstFrom(next)
       \/ p >= Polys
       \/ c < 1
       \/ p + c > PolysTo(BlockOf(p))
       \/ k # 0
       \/ l # LengthOf(p)
    THEN {"order"}
    ELSE IF s = 0 /\ (c > 1 \/ FirstFrom(p + c) < Polys) THEN {"separation"} ELSE {}

BrokenEnd == IF FirstFrom(next) >= Polys THEN {} ELSE {"order"}
BrokenCount(n) == IF n = Total THEN {} ELSE {"count"}
BrokenGet(p, k, v) == IF p < Polys /\ k < LengthOf(p) /\ v = Vertex(p, k) THEN {} ELSE {"lookup"}

EffStretch(p, c) == next' = p + c
=============================================================================
