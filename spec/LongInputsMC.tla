---------------------------- MODULE LongInputsMC ----------------------------
(* LongInputs accepts exactly those iterations of which Inputs accepts every *)
(* step: all lists of a few blocks, all sequences of a few stretches.  Each  *)
(* stretch is judged as one, and then given to Inputs element by element.    *)
EXTENDS LongInputs, TLC

CONSTANTS MaxBlocks, MaxCount, MaxLength, MaxStretches

VARIABLES
    last, n,              \* the last stretch (or None), and how many there were
    todo,                 \* the elements Inputs has not seen yet: <<p, k>>, or <<>> for a separator
    bad, broken,          \* what LongInputs and Inputs find broken
    polys, single, sub, iters

None == "none"
I == INSTANCE Inputs

vars == <<blocks, next, last, n, todo, bad, broken, polys, single, sub, iters>>

\* The same list as Inputs sees it
RECURSIVE Expand(_, _, _)
Expand(bs, b, from) ==
    IF b > Len(bs) THEN <<>>
    ELSE [ j \in 1..bs[b].c |-> [ i \in 1..bs[b].l |-> [k |-> i - 1, v |-> from + (j - 1) * bs[b].l + i] ] ]
         \o Expand(bs, b + 1, from + bs[b].c * bs[b].l)

RECURSIVE Several(_)
Several(x) == IF x.c = 0 THEN <<>>
              ELSE [i \in 1..x.l |-> <<x.p, x.k + i - 1>>] \o [i \in 1..x.s |-> <<>>] \o Several([x EXCEPT !.p = @ + 1, !.c = @ - 1])

\* Stretches are as long as they can be: two which follow each other are not parts of one.
Joined(x, y) == \/ x.s = 0 /\ x.c = 1 /\ x.p = y.p /\ x.k + x.l = y.k
                \/ x.s = y.s /\ x.l = y.l /\ x.k = y.k /\ x.p + x.c = y.p

Stretches == [p : 0..3, c : 1..2, k : 0..1, l : 1..MaxLength, s : 0..2]

Init ==
    /\ blocks \in UNION { [1..m -> [c : 1..MaxCount, l : 0..MaxLength]] : m \in 0..MaxBlocks }
    /\ Proper
    /\ next = 0
    /\ last = <<>>
    /\ n = 0
    /\ todo \in { <<>>, << <<>> >>, << <<>>, <<>> >> }   \* separators in front
    /\ bad = {}
    /\ broken = {}
    /\ polys = Expand(blocks, 1, 0)
    /\ single = FALSE
    /\ sub = [mul |-> 1, add |-> 0]
    /\ iters = <<[given |-> 0, cut |-> FALSE, over |-> FALSE]>>

Stretch ==
    /\ todo = <<>>
    /\ n < MaxStretches
    /\ bad = {}
    /\ \E x \in Stretches :
          /\ n > 0 => ~Joined(last[1], x)
          /\ bad' = BrokenStretch(x.p, x.c, x.k, x.l, x.s)
          /\ todo' = Several(x)
          /\ last' = <<x>>
          /\ EffStretch(x.p, x.c)
    /\ n' = n + 1
    /\ UNCHANGED <<blocks, broken, polys, single, sub, iters>>

Element ==
    /\ todo # <<>>
    /\ todo' = Tail(todo)
    /\ IF Head(todo) = <<>>
       THEN broken' = broken \cup I!BrokenSeparator(1) /\ I!EffSeparator(1)
       ELSE broken' = broken \cup I!BrokenVertex(1, Head(todo)) /\ I!EffVertex(1)
    /\ UNCHANGED <<blocks, next, last, n, bad, polys, single, sub>>

Spec == Init /\ [][Stretch \/ Element]_vars

\* Separators in front need no judgement, as next = 0.
Same == todo = <<>> => (bad \cup BrokenEnd = {}) = (broken \cup I!BrokenEnd(1) = {})
SameLookup == n = 0 =>
    /\ I!Total = Total
    /\ I!Proper
    /\ \A p \in 0..Polys : \A k \in 0..MaxLength : \A v \in 0..(Total + 1) : BrokenGet(p, k, v) = I!BrokenGet(<<p, k>>, v)
=============================================================================
