--------------------------- MODULE Triangulation ---------------------------
(* What a user of the library can observe of one triangulation run: the      *)
(* calls made to the output builder, and the value returned to the caller.   *)
(*                                                                           *)
(* Every action is one public call (its linearization point is the return    *)
(* of the call).  For each action, the operator Broken<Action> is the set of *)
(* requirements the call would break; the action is allowed iff that set is  *)
(* empty.  Trace specifications use the same operators, so a rejected trace  *)
(* names the requirement.                                                    *)
EXTENDS Geometry, TLC

VARIABLES
    run,     \* the input and the declared winding, constant during a run
    phase,   \* where the run stands, see Phases
    tris,    \* the triangles delivered so far, in order, as vertex id triples
    fan,     \* <<root, last>> of the fan being extended
    fault,   \* the error a builder call has raised, or None
    result   \* what the caller received, or Pending

tvars == <<run, phase, tris, fan, fault, result>>

None == "none"
Pending == "pending"
Ok == "ok"
NoVertices == "novertices"
Panic == "panic"

\* The phase after a builder call with this result
After(res, good, poor) == IF res = Ok THEN good ELSE IF res = Panic THEN "unwound" ELSE poor

Phases == { "idle",     \* the builder does not exist
            "open",     \* the builder accepts triangles
            "refused",  \* initialize returned an error: there is no builder
            "erred",    \* a builder call returned an error, fail is due
            "failed",   \* fail was called
            "built",    \* build returned the output
            "spoiled",  \* build consumed the builder and returned an error
            "unwound",  \* a builder call panicked; there is no cleanup, the caller meets the panic
            "returned" }

Known(v) == v \in DOMAIN run.pts

\* Twice the area of the triangle t, positive iff t has the declared winding.
Turn(t) == LET c == Cross(run.pts[t[1]], run.pts[t[2]], run.pts[t[3]])
           IN  IF run.winding = "ccw" THEN c ELSE -c

-----------------------------------------------------------------------------
(* Tiling.  A triangle is a 2-chain; a list of triangles, each taken with    *)
(* positive orientation, tiles the interior iff the sum of their boundaries  *)
(* is the boundary of the interior: the sum of the triangles' indicator      *)
(* functions is then the winding number of that boundary, which is 1 inside  *)
(* and 0 outside, so that no two triangles overlap, none leaves the interior *)
(* and no part of it is missing.                                             *)

EdgeOf(t, k) == <<t[k], t[(k % 3) + 1]>>
DirectedEdges(t) == { EdgeOf(t, k) : k \in 1..3 }
Reverse(e) == <<e[2], e[1]>>

\* t oriented counterclockwise.  Triangles of zero area are read in the declared winding.
Positive(t) == LET c == Cross(run.pts[t[1]], run.pts[t[2]], run.pts[t[3]])
               IN  IF c > 0 \/ (c = 0 /\ run.winding = "ccw") THEN t ELSE <<t[1], t[3], t[2]>>

\* The vertices on the segment e, in order, cut e into elementary pieces.
Pieces(e) ==
    LET a == run.pts[e[1]]  b == run.pts[e[2]]
        on == { v \in DOMAIN run.pts : OnSegment(a, b, run.pts[v]) }
        pos(v) == Dot(a, b, run.pts[v])
    IN  { p \in on \X on : /\ pos(p[1]) < pos(p[2])
                           /\ ~\E w \in on : pos(p[1]) < pos(w) /\ pos(w) < pos(p[2]) }

TilesConforming(ts, boundary) ==
    LET E == { EdgeOf(Positive(ts[i]), k) : i \in 1..Len(ts), k \in 1..3 }
    IN  /\ Cardinality(E) = 3 * Len(ts)
        /\ { e \in E : Reverse(e) \notin E } = boundary

\* Corners may lie on other triangles' edges (the input may have collinear vertices).
TilesSubdivided(ts, boundary) ==
    LET big == { i \in 1..Len(ts) : Turn(ts[i]) # 0 }
        \* <<i, k>>: the k-th edge of the i-th triangle
        cells == big \X (1..3)
        edge == [ c \in cells |-> LET t == Positive(ts[c[1]]) IN <<t[c[2]], t[(c[2] % 3) + 1]>> ]
        pieces == [ c \in cells |-> Pieces(edge[c]) ]
        all == UNION { pieces[c] : c \in cells }
        net(p) == Cardinality({ c \in cells : p \in pieces[c] }) - Cardinality({ c \in cells : Reverse(p) \in pieces[c] })
    IN  /\ boundary \subseteq all
        /\ \A p \in all : net(p) = (IF p \in boundary THEN 1 ELSE 0) - (IF Reverse(p) \in boundary THEN 1 ELSE 0)

Tiles(ts) ==
    LET boundary == InteriorBoundary(run.pts, run.rings)
    IN  /\ \A i \in 1..Len(ts) : \A k \in 1..3 : Known(ts[i][k])
        /\ TilesConforming(ts, boundary) \/ TilesSubdivided(ts, boundary)

-----------------------------------------------------------------------------
(* Requirements.                                                             *)

BrokenTriangle(t) ==
    IF ~(\A i \in 1..3 : Known(t[i])) THEN {"index"}
    ELSE IF t[1] = t[2] \/ t[2] = t[3] \/ t[1] = t[3] THEN {"corners"}
    ELSE IF Turn(t) < 0 THEN {"winding"} ELSE {}

InputAccepted == run.reject = None

BrokenInitialize(a, b, c) ==
    (IF phase # "idle" \/ ~InputAccepted THEN {"protocol"} ELSE {}) \cup BrokenTriangle(<<a, b, c>>)

\* A list builder is initialized without a triangle, and then given its triangles one by one.
BrokenInitializeList ==
    IF phase # "idle" \/ ~InputAccepted THEN {"protocol"} ELSE {}

BrokenAddTriangle(a, b, c) ==
    (IF phase = "open" THEN {} ELSE {"protocol"}) \cup BrokenTriangle(<<a, b, c>>)

BrokenNewFan(a, b, c) ==
    (IF phase = "open" THEN {} ELSE {"protocol"}) \cup BrokenTriangle(<<a, b, c>>)

BrokenExtendFan(v) ==
    IF phase # "open" THEN {"protocol"} ELSE BrokenTriangle(<<fan[1], fan[2], v>>)

BrokenBuild ==
    IF phase # "open" THEN {"protocol"} ELSE IF ~InputAccepted \/ Tiles(tris) THEN {} ELSE {"tiling"}

\* fail is due exactly once, after a builder call other than initialize and build has returned an
\* error, and is told that error.  A run on a valid input encounters no other error.
BrokenFail(err) ==
    IF phase # "erred" THEN {"protocol"} ELSE IF err = fault THEN {} ELSE {"error"}

\* Trapezoidizing as a separate step reports a ring that is too short; a set without vertices is not an error yet.
BrokenTrapezoidize(res) ==
    (IF phase # "idle" \/ result # Pending THEN {"protocol"} ELSE {}) \cup
    IF InputAccepted THEN (IF res = Ok THEN {} ELSE {"success"})
    ELSE IF run.reject = NoVertices THEN (IF res = Ok THEN {} ELSE {"reject"})
    ELSE (IF res = run.reject THEN {} ELSE {"reject"})

BrokenReturn(res) ==
    (IF result # Pending THEN {"protocol"} ELSE {}) \cup
    CASE ~InputAccepted -> (IF phase # "idle" THEN {"protocol"} ELSE {}) \cup (IF res = run.reject THEN {} ELSE {"reject"})
      [] InputAccepted /\ fault = None ->
            \* the caller gets what build returned
            IF res = "wrong-output" THEN {"protocol"}
            ELSE (IF res = Ok THEN {} ELSE {"success"}) \cup (IF res # Ok \/ phase = "built" THEN {} ELSE {"protocol"})
      [] InputAccepted /\ fault # None ->
            (IF res = fault THEN {} ELSE {"error"}) \cup (IF phase \in {"refused", "failed", "spoiled", "unwound"} THEN {} ELSE {"cleanup"})

-----------------------------------------------------------------------------
(* Effects.                                                                  *)

EffInitialize(a, b, c, res) ==
    /\ phase' = After(res, "open", "refused")
    /\ fault' = IF res = Ok THEN fault ELSE res
    /\ tris' = IF res = Ok THEN <<<<a, b, c>>>> ELSE tris
    /\ fan' = <<a, c>>
    /\ UNCHANGED <<run, result>>

EffInitializeList(res) ==
    /\ phase' = After(res, "open", "refused")
    /\ fault' = IF res = Ok THEN fault ELSE res
    /\ UNCHANGED <<run, tris, fan, result>>

EffNewFan(a, b, c, res) ==
    /\ phase' = After(res, phase, "erred")
    /\ fault' = IF res = Ok THEN fault ELSE res
    /\ tris' = IF res = Ok THEN Append(tris, <<a, b, c>>) ELSE tris
    /\ fan' = <<a, c>>
    /\ UNCHANGED <<run, result>>

EffExtendFan(v, res) ==
    /\ phase' = After(res, phase, "erred")
    /\ fault' = IF res = Ok THEN fault ELSE res
    /\ tris' = IF res = Ok THEN Append(tris, <<fan[1], fan[2], v>>) ELSE tris
    /\ fan' = <<fan[1], v>>
    /\ UNCHANGED <<run, result>>

EffAddTriangle(a, b, c, res) == EffNewFan(a, b, c, res)

EffBuild(res) ==
    /\ phase' = After(res, "built", "spoiled")
    /\ fault' = IF res = Ok THEN fault ELSE res
    /\ UNCHANGED <<run, tris, fan, result>>

EffTrapezoidize == UNCHANGED tvars

EffFail ==
    /\ phase' = "failed"
    /\ UNCHANGED <<run, tris, fan, fault, result>>

EffReturn(res) ==
    /\ phase' = "returned"
    /\ result' = res
    /\ UNCHANGED <<run, tris, fan, fault>>

-----------------------------------------------------------------------------
(* The specification.                                                        *)

Initialize(a, b, c, res) == BrokenInitialize(a, b, c) = {} /\ EffInitialize(a, b, c, res)
InitializeList(res)      == BrokenInitializeList = {} /\ EffInitializeList(res)
AddTriangle(a, b, c, res) == BrokenAddTriangle(a, b, c) = {} /\ EffAddTriangle(a, b, c, res)
NewFan(a, b, c, res)     == BrokenNewFan(a, b, c) = {} /\ EffNewFan(a, b, c, res)
ExtendFan(v, res)        == BrokenExtendFan(v) = {} /\ EffExtendFan(v, res)
Build(res)               == BrokenBuild = {} /\ EffBuild(res)
Trapezoidize(res)        == BrokenTrapezoidize(res) = {} /\ EffTrapezoidize
Fail(err)                == BrokenFail(err) = {} /\ EffFail
Return(res)              == BrokenReturn(res) = {} /\ EffReturn(res)

StartOf(r) ==
    /\ run = r
    /\ phase = "idle"
    /\ tris = <<>>
    /\ fan = <<>>
    /\ fault = None
    /\ result = Pending

\* All calls with the given builder results and caller results.
NextWith(results) ==
    \/ \E a, b, c \in DOMAIN run.pts, res \in results : Initialize(a, b, c, res) \/ NewFan(a, b, c, res)
    \/ \E v \in DOMAIN run.pts, res \in results : phase = "open" /\ ExtendFan(v, res)
    \/ \E res \in results : Build(res)
    \/ \E res \in results : Fail(res)
    \/ \E res \in results \cup {run.reject} : Return(res)
=============================================================================
