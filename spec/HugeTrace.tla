------------------------------ MODULE HugeTrace ------------------------------
(* Validates runs on inputs of many thousand vertices.  Each line of the      *)
(* trace holds a certified input, all triangles delivered and the result.     *)
(* Unlike TriangulationTrace this looks at the whole run in one step.         *)
EXTENDS Huge, Json, IOUtils, TLC

CONSTANT Watch

Traces == ndJsonDeserialize(IOEnv.TRACES)

VARIABLES tr, pos, bad

vars == <<tr, pos, bad>>

T == INSTANCE Triangulation WITH run <- Traces[tr], phase <- "open", tris <- <<>>, fan <- <<>>, fault <- "none", result <- "pending"

Init == tr \in 1..Len(Traces) /\ pos = 0 /\ bad = {}

Examine ==
    /\ pos = 0
    /\ pos' = 1
    /\ bad' = IF Certified(Traces[tr]) THEN {} ELSE {"harness"}
    /\ tr' = tr

Net(pieces, S, p) == Cardinality({ e \in S : p \in pieces[e] }) - Cardinality({ e \in S : T!Reverse(p) \in pieces[e] })

\* Triangulation!Tiles for a certified input.  Edges shared by two triangles cancel; only what is left is cut into
\* pieces.  If a great deal is left, the area alone is compared: "undecided" would be an answer, but does not occur.
Verdict(in, ts) ==
    LET boundary == Boundary(in)
        big == { i \in 1..Len(ts) : T!Turn(ts[i]) # 0 }
        E == { T!EdgeOf(T!Positive(ts[i]), k) : i \in big, k \in 1..3 }
        U == { e \in E : T!Reverse(e) \notin E }
        extra == U \ boundary
        missing == boundary \ U
        pieces == [ e \in extra \cup missing |-> T!Pieces(e) ]
    IN  IF T!TilesConforming(ts, boundary) THEN {}
        ELSE IF Cardinality(E) # 3 * Cardinality(big) THEN {"tiling"}
        ELSE IF TriangleArea(in, ts) # InteriorArea(in) THEN {"tiling"}
        ELSE IF Cardinality(extra) + Cardinality(missing) <= 200
        THEN IF \A p \in UNION { pieces[e] : e \in extra \cup missing } : Net(pieces, extra, p) = Net(pieces, missing, p) THEN {} ELSE {"tiling"}
        ELSE {"undecided"}

BrokenRun(in, res) ==
    LET ts == in.tris
        known == \A i \in 1..Len(ts) : \A k \in 1..3 : ts[i][k] \in DOMAIN in.pts
        distinct == \A i \in 1..Len(ts) : ts[i][1] # ts[i][2] /\ ts[i][2] # ts[i][3] /\ ts[i][1] # ts[i][3]
    IN  IF res # "ok" THEN {"success"}
        ELSE IF ~known THEN {"index"}
        ELSE (IF distinct THEN {} ELSE {"corners"})
             \cup (IF \A i \in 1..Len(ts) : T!Turn(ts[i]) >= 0 THEN {} ELSE {"winding"})
             \cup Verdict(in, ts)

Step ==
    /\ pos > 0
    /\ pos <= Len(Traces[tr].ev)
    /\ pos' = pos + 1
    /\ bad' = bad \cup BrokenRun(Traces[tr], Traces[tr].ev[pos].r)
    /\ tr' = tr

Next == Examine \/ Step

Spec == Init /\ [][Next]_vars

HarnessSound == "harness" \notin bad
Holds == bad \cap Watch = {}
Detected == pos > Len(Traces[tr].ev) =>
                IF Traces[tr].expect = "none" THEN bad = {} ELSE Traces[tr].expect \in bad
=============================================================================
