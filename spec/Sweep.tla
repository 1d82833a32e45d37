------------------------------- MODULE Sweep --------------------------------
(* The second half of the algorithm: a traversal of a finished decomposition *)
(* from top to bottom, which cuts the interior into monotone chains, and the *)
(* ear cutting which turns each chain into fans of triangles.                *)
(*                                                                           *)
(* The trapezoids are those of Decomposition for the complete input (Seidel  *)
(* shows that these are the ones constructed).  The visible steps are the    *)
(* calls made to the builder, whose results are up to the builder; they are  *)
(* the actions of Triangulation (checked by SweepMC).                        *)
EXTENDS Triangulation

VARIABLES
    cells,     \* the trapezoids, constant
    at,        \* the trapezoid the traversal stands in
    chains,    \* the chains open in `at`: none outside the interior, else one or two (left, right)
    branches,  \* trapezoids to resume from, with their open chains; the last is next
    stash,     \* chains which wait for their right neighbour at the lower end of a hole
    out        \* builder calls which are due, oldest first

svars == <<cells, at, chains, branches, stash, out>>

D == INSTANCE Decomposition WITH input <- [pts |-> run.pts, rings |-> run.rings], segs <- {}
Algo == INSTANCE Seidel WITH input <- [pts |-> run.pts, rings |-> run.rings], ring <- 1, todo <- {}, st <- <<>>

P(v) == run.pts[v]
IsLeft(a, b, c) == Algo!IsLeft(P(a), P(b), P(c))

-----------------------------------------------------------------------------
(* Ear cutting.  A chain is a sequence of vertices from top to bottom; its   *)
(* first and last vertex are joined by an edge, and the others lie on one    *)
(* side.  It is a stack of skipped vertices, the expended ones, and a queue  *)
(* of pending ones: c[1..k] and c[p..Len(c)].                                *)

\* A chain is worth cutting unless it is horizontal or vertical.
Spread(c) == /\ \E i \in 2..Len(c) : X(P(c[i])) # X(P(c[1]))
             /\ \E i \in 2..Len(c) : Y(P(c[i])) # Y(P(c[1]))

OnLeft(c) == IsLeft(c[Len(c)], c[1], c[2])

\* The upper vertex of the pending queue cuts off the top of the stack.
CanCut(left, skipped, pending) ==
    /\ Len(skipped) >= 2
    /\ pending # <<>>
    /\ left = IsLeft(Head(pending), skipped[Len(skipped) - 1], skipped[Len(skipped)])

Pop(s) == SubSeq(s, 1, Len(s) - 1)
Top(s) == s[Len(s)]

RECURSIVE Backtrack(_, _, _, _)
\* The pending vertex stays, the stack is popped as long as possible.  Collects the new tops of the stack.
Backtrack(left, skipped, pending, acc) ==
    IF CanCut(left, skipped, pending) THEN Backtrack(left, Pop(skipped), pending, Append(acc, Top(Pop(skipped))))
    ELSE [skipped |-> skipped, pending |-> pending, acc |-> acc]

RECURSIVE Advance(_, _, _, _)
\* The bottom of the stack's last two stays, pending vertices are taken as long as possible.  Collects the pending vertices.
Advance(left, skipped, pending, acc) ==
    IF CanCut(left, skipped, pending)
    THEN Advance(left, Append(Pop(skipped), Head(pending)), Tail(pending), Append(acc, Head(pending)))
    ELSE [skipped |-> skipped, pending |-> pending, acc |-> acc]

Reversed(s) == [i \in 1..Len(s) |-> s[Len(s) + 1 - i]]

\* A fan over the vertices f[2..], rooted at f[1], as calls.
FanCalls(f) == << [e |-> "fan", v |-> SubSeq(f, 1, 3)] >> \o [i \in 1..(Len(f) - 3) |-> [e |-> "ext", v |-> << f[i + 3] >>]]

RECURSIVE Cut(_, _, _, _)
\* The calls for the chain whose skipped and pending vertices these are.  `fuel` bounds the number of restarts.
Cut(left, skipped, pending, fuel) ==
    IF Len(skipped) + Len(pending) < 3 THEN <<>>
    ELSE IF fuel = 0 THEN << [e |-> "stuck", v |-> <<>>] >>
    ELSE LET cut == CanCut(left, skipped, pending)
             v1 == Top(skipped)
             rest == Pop(skipped)
             v0 == Top(rest)
             v2 == Head(pending)
             back == CanCut(left, rest, pending)
             \* the fan's rim in the order of discovery, its root apart
             r == IF ~cut THEN [skipped |-> skipped, pending |-> pending, acc |-> <<>>]
                  ELSE IF back THEN Backtrack(left, rest, pending, <<v1, v0>>)
                  ELSE Advance(left, Append(rest, v2), Tail(pending), <<v1, v2>>)
             root == IF back THEN v2 ELSE v0
             forward == (back # left) # (run.winding = "cw")
             calls == IF ~cut THEN <<>> ELSE FanCalls(<<root>> \o (IF forward THEN r.acc ELSE Reversed(r.acc)))
         IN  calls \o
             IF r.pending # <<>> THEN Cut(left, Append(r.skipped, Head(r.pending)), Tail(r.pending), fuel)
             ELSE \* restart with what is left
                  Cut(left, SubSeq(r.skipped, 1, Min2(2, Len(r.skipped))), SubSeq(r.skipped, 3, Len(r.skipped)), fuel - 1)

CallsFor(c) == IF Len(c) < 3 THEN << [e |-> "stuck", v |-> <<>>] >>
               ELSE IF ~Spread(c) THEN <<>>
               ELSE Cut(OnLeft(c), SubSeq(c, 1, 2), SubSeq(c, 3, Len(c)), Len(c))

-----------------------------------------------------------------------------
(* Traversal.                                                                *)

The(C) == CHOOSE c \in C : TRUE
Above(v) == { c \in cells : c.down = v }
Below(v) == { c \in cells : c.up = v }
LeftEdge(A) == CHOOSE a \in A : \A b \in A : a = b \/ EdgeLeftOf(run.pts, a, b)

Rising(v) == { e \in D!Edges : e[1] = v }
Falling(v) == { e \in D!Edges : e[2] = v }
\* From left to right.  Edges which end in v are compared by their lower ends.
FallLeft(v) == CHOOSE a \in Falling(v) : \A b \in Falling(v) : a = b \/ Cross(P(v), P(a[1]), P(b[1])) > 0
RiseLeft(v) == LeftEdge(Rising(v))
Other(E, e) == CHOOSE f \in E : f # e

Shape(v) == IF Cardinality(Rising(v)) = 2 THEN "V" ELSE IF Cardinality(Falling(v)) = 2 THEN "A" ELSE "I"

\* The chains after the vertex below the trapezoid has been added, and the one completed by a diagonal, if any.
Diagonal(c, new) ==
    LET v == c.down
        endsLeft == v = c.left[1] /\ v # c.right[1] /\ c.up # c.left[2]
        endsRight == v = c.right[1] /\ v # c.left[1] /\ c.up # c.right[2]
    IN  IF endsLeft
        THEN [done |-> << new[1] >>, open |-> IF Len(new) = 2 THEN << new[2] >> ELSE << << c.up, v >> >>]
        ELSE IF endsRight
        THEN [done |-> << new[Len(new)] >>, open |-> IF Len(new) = 2 THEN << new[1] >> ELSE << << c.up, v >> >>]
        ELSE [done |-> <<>>, open |-> new]

Grow(cs, v) == [i \in 1..Len(cs) |-> Append(cs[i], v)]

RECURSIVE Concat(_)
Concat(ss) == IF ss = <<>> THEN <<>> ELSE Head(ss) \o Concat(Tail(ss))
CallsForAll(cs) == Concat([i \in 1..Len(cs) |-> CallsFor(cs[i])])

\* Go on with the branch remembered last.
Resume == /\ branches # <<>>
          /\ at' = Top(branches).cell
          /\ chains' = Top(branches).chains
          /\ branches' = Pop(branches)

\* One trapezoid of the traversal.
Visit ==
    /\ at.down # 0
    /\ out = <<>>
    /\ phase \in {"idle", "open"}
    /\ UNCHANGED <<tvars, cells>>
    /\ LET v == at.down
           inside == chains # <<>>
           d == IF inside THEN Diagonal(at, Grow(chains, v)) ELSE [done |-> <<>>, open |-> <<>>]
           open == d.open
       IN  CASE Shape(v) = "V" ->
                  LET a == RiseLeft(v)  b == Other(Rising(v), a) IN
                  IF at.left = b      \* right of the vertex: go on below it, with two chains if inside
                  THEN /\ at' = The(Below(v))
                       /\ IF inside THEN /\ stash # <<>> /\ Len(open) = 1
                                         /\ chains' = << Top(stash), open[1] >>
                                         /\ stash' = Pop(stash)
                                    ELSE UNCHANGED <<chains, stash>>
                       /\ out' = CallsForAll(d.done)
                       /\ UNCHANGED branches
                  ELSE IF at.right = a   \* left of the vertex: the chain waits for its neighbour
                  THEN /\ Resume
                       /\ IF inside THEN Len(open) = 1 /\ stash' = Append(stash, open[1]) ELSE UNCHANGED stash
                       /\ out' = CallsForAll(d.done)
                  ELSE                   \* above the vertex: the chains end
                       /\ Resume
                       /\ out' = CallsForAll(d.done \o open)
                       /\ UNCHANGED stash
             [] Shape(v) = "I" ->
                  LET u == The(Rising(v))  f == The(Falling(v)) IN
                  /\ at' = IF at.right = u THEN The({ c \in Below(v) : c.right = f }) ELSE The({ c \in Below(v) : c.left = f })
                  /\ chains' = open
                  /\ out' = CallsForAll(d.done)
                  /\ UNCHANGED <<branches, stash>>
             [] Shape(v) = "A" ->
                  LET a == FallLeft(v)  b == Other(Falling(v), a)
                      left == The({ c \in Below(v) : c.right = a })
                      center == The({ c \in Below(v) : c.left = a })
                      right == The({ c \in Below(v) : c.left = b })
                      two == IF Len(open) = 2 THEN open
                             ELSE IF at.up = at.left[2] THEN << << at.up, v >>, open[1] >> ELSE << open[1], << at.up, v >> >>
                  IN  /\ at' = left
                      /\ out' = CallsForAll(d.done)
                      /\ IF inside
                         THEN /\ chains' = << two[1] >>
                              /\ branches' = branches \o << [cell |-> right, chains |-> << two[2] >>], [cell |-> center, chains |-> <<>>] >>
                         ELSE /\ chains' = <<>>
                              /\ branches' = branches \o << [cell |-> right, chains |-> <<>>], [cell |-> center, chains |-> << << v >> >>] >>
                      /\ UNCHANGED stash

-----------------------------------------------------------------------------
(* Calls.  The first call creates the builder.                               *)

Call(res) ==
    /\ out # <<>>
    /\ phase \in {"idle", "open"}
    /\ LET c == Head(out)  v == c.v IN
       IF phase = "idle" THEN EffInitialize(v[1], v[2], v[3], res)
       ELSE IF c.e = "fan" THEN EffNewFan(v[1], v[2], v[3], res) ELSE EffExtendFan(v[1], res)
    /\ out' = Tail(out)
    /\ UNCHANGED <<cells, at, chains, branches, stash>>

Done == at.down = 0 /\ out = <<>>

Finish(res) ==
    \/ /\ phase = "open" /\ Done
       /\ EffBuild(res)
       /\ UNCHANGED svars
    \/ /\ phase = "erred" /\ res = fault
       /\ EffFail
       /\ UNCHANGED svars
    \/ /\ phase \in {"refused", "failed", "built", "spoiled", "unwound"}
       /\ res = (IF fault = None THEN Ok ELSE fault)
       /\ EffReturn(res)
       /\ UNCHANGED svars

SweepStart(r) ==
    /\ StartOf(r)
    /\ cells = D!Cells(D!Edges)
    /\ at = CHOOSE c \in cells : c.up = 0
    /\ chains = <<>>
    /\ branches = <<>>
    /\ stash = <<>>
    /\ out = <<>>

SweepNext(results) == Visit \/ \E res \in results : Call(res) \/ Finish(res)
=============================================================================
