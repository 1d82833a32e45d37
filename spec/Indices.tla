------------------------------ MODULE Indices ------------------------------
(* Which indices a polygon list hands out, and what they mean.               *)
(*                                                                           *)
(* An index is a sequence of integer components (a plain index has one, a    *)
(* text its character codes).  orig[v] is the index under which the list     *)
(* stores vertex v.  A substitution of the index type converts components    *)
(* one by one, in both directions:                                           *)
(*    sub.mul, sub.add   the new component for c is mul * c + add            *)
(*    sub.lo, sub.hi     the values the new component type can hold          *)
(*    sub.refused        components which the conversion refuses anyway      *)
(*    sub.least          the least value the old component type can hold     *)
(*    sub.back           new components which the conversion back refuses    *)
(* mul is 1 or -1 or 2, so that no two components convert to the same one.   *)
EXTENDS Integers, Sequences, FiniteSets

InSeq(x, s) == \E i \in 1..Len(s) : s[i] = x

New(sub, c) == sub.mul * c + sub.add
Old(sub, d) == IF sub.mul = -1 THEN sub.add - d ELSE (d - sub.add) \div sub.mul
Forth(sub, c) == /\ ~InSeq(c, sub.refused)
                 /\ sub.lo <= New(sub, c) /\ New(sub, c) <= sub.hi
\* The new component d stands for an old one.
Back(sub, d) == /\ ~InSeq(d, sub.back)
                /\ New(sub, Old(sub, d)) = d /\ Old(sub, d) >= sub.least

Substituted(sub, index) == [i \in 1..Len(index) |-> New(sub, index[i])]
Convertible(sub, index) == \A i \in 1..Len(index) : Forth(sub, index[i]) /\ Back(sub, New(sub, index[i]))
BackConvertible(sub, index) == \A i \in 1..Len(index) : Back(sub, index[i])

\* Every index of the list can be converted; otherwise using the list panics.
AllConvertible(sub, orig) == \A v \in 1..Len(orig) : Convertible(sub, orig[v])

\* The index of vertex v, and the vertex of an index (0: none)
IndexOf(sub, orig, v) == Substituted(sub, orig[v])
VertexOf(sub, orig, index) ==
    LET vs == { v \in 1..Len(orig) : IndexOf(sub, orig, v) = index }
    IN  IF vs = {} THEN 0 ELSE CHOOSE v \in vs : TRUE
=============================================================================
