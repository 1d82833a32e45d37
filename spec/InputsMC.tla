------------------------------ MODULE InputsMC ------------------------------
(* The library's lists, at algorithm level: a nested list iterates over its  *)
(* polygons one after another (outer position, and what is left of the       *)
(* current polygon's own iteration), a view of a single polygon hands on the *)
(* polygon's iteration, and a substituted list converts what the list below  *)
(* gives; lookups go the other way.  Two iterations under way at a time, in  *)
(* all interleavings, over all small contents.  Every step meets the         *)
(* requirements of Inputs, and reading a finished iteration as rings         *)
(* (Streams) gives the nonempty polygons.                                    *)
EXTENDS Integers, Sequences, FiniteSets

CONSTANTS MaxPolys,   \* polygons in a list
          MaxTotal    \* vertices in a list

VARIABLES polys, single, sub, iters, algo, given, bad

vars == <<polys, single, sub, iters, algo, given, bad>>

\* no index and no list of keys
None == <<-99>>
I == INSTANCE Inputs
S == INSTANCE Streams

\* The keys of a polygon, in its own order
KeyLists == {<<>>, <<0>>, <<0, 1>>, <<1, 0>>, <<5>>, <<0, 1, 2>>, <<3, 7, 4>>}

RECURSIVE Sum(_)
Sum(s) == IF s = <<>> THEN 0 ELSE Len(s[1]) + Sum(Tail(s))

\* Vertices are numbered through
Held(keys) == [p \in 1..Len(keys) |-> [j \in 1..Len(keys[p]) |-> [k |-> keys[p][j], v |-> Sum(SubSeq(keys, 1, p - 1)) + j]]]

Iterations == {1, 2}

Init ==
    /\ \E n \in 0..MaxPolys : \E keys \in [1..n -> KeyLists] : Sum(keys) <= MaxTotal /\ polys = Held(keys)
    /\ single \in BOOLEAN
    /\ single => Len(polys) = 1
    /\ sub \in {[mul |-> 1, add |-> 0], [mul |-> 1, add |-> 3], [mul |-> 2, add |-> 1], [mul |-> -1, add |-> 9]}
    /\ iters = <<>>
    /\ algo = <<>>
    /\ given = <<>>
    /\ bad = {}

Keys(p) == [j \in 1..Len(polys[p]) |-> polys[p][j].k]

Start == [outer |-> 1, inner |-> None]

\* One step of an iteration: what it gives (<<>>: a separator, None: the end), and its next state
NestedStep(s) ==
    IF s.outer > Len(polys) THEN [x |-> None, s |-> s]
    ELSE LET inner == IF s.inner = None THEN Keys(s.outer) ELSE s.inner
         IN  IF inner = <<>> THEN [x |-> <<>>, s |-> [outer |-> s.outer + 1, inner |-> None]]
             ELSE [x |-> <<s.outer - 1, Head(inner)>>, s |-> [s EXCEPT !.inner = Tail(inner)]]

SingleStep(s) ==
    LET inner == IF s.inner = None THEN Keys(1) ELSE s.inner
    IN  IF inner = <<>> THEN [x |-> None, s |-> s]
        ELSE [x |-> <<Head(inner)>>, s |-> [s EXCEPT !.inner = Tail(inner)]]

Step(s) == IF single THEN SingleStep(s) ELSE NestedStep(s)

Converted(x) == IF x = None \/ x = <<>> THEN x ELSE I!Substituted(x)

\* The lookup: back through the conversion, then by position and key
Back(d) == IF sub.mul = -1 THEN sub.add - d ELSE (d - sub.add) \div sub.mul
Find(index) ==
    LET old == [i \in 1..Len(index) |-> Back(index[i])]
        p == IF single THEN 1 ELSE old[1] + 1
        k == old[Len(old)]
        j == CHOOSE j \in 1..Len(polys[p]) : polys[p][j].k = k
    IN  polys[p][j].v

Open(i) ==
    /\ i \notin DOMAIN iters
    /\ i > 1 => i - 1 \in DOMAIN iters
    /\ I!EffOpen(i)
    /\ algo' = Append(algo, Start)
    /\ given' = Append(given, <<>>)
    /\ UNCHANGED <<polys, single, sub, bad>>

Advance(i) ==
    /\ i \in DOMAIN iters
    /\ ~iters[i].over
    /\ LET step == Step(algo[i])  x == Converted(step.x) IN
          /\ algo' = [algo EXCEPT ![i] = step.s]
          /\ IF x = None THEN bad' = bad \cup I!BrokenEnd(i) /\ I!EffEnd(i) /\ given' = given
             ELSE IF x = <<>> THEN bad' = bad \cup I!BrokenSeparator(i) /\ I!EffSeparator(i) /\ given' = [given EXCEPT ![i] = Append(@, S!Separator)]
             ELSE bad' = bad \cup I!BrokenVertex(i, x) \cup I!BrokenGet(x, Find(x)) /\ I!EffVertex(i) /\ given' = [given EXCEPT ![i] = Append(@, Find(x))]
    /\ UNCHANGED <<polys, single, sub>>

Next == \E i \in Iterations : Open(i) \/ Advance(i)

Spec == Init /\ [][Next]_vars /\ WF_vars(Next)

Sound == bad = {} /\ I!TypeOK /\ I!Proper

Rings == LET all == [p \in 1..Len(polys) |-> [j \in 1..Len(polys[p]) |-> polys[p][j].v]] IN SelectSeq(all, LAMBDA r : r # <<>>)
ReadAsHeld == \A i \in DOMAIN iters : iters[i].over => S!GroupRings(given[i]) = Rings

Ends == <>(\A i \in Iterations : i \in DOMAIN iters /\ iters[i].over)
=============================================================================
