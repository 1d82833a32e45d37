---------------------------- MODULE SessionTrace ----------------------------
(* Validates histories of runs over one trapezoidation against Session.      *)
EXTENDS Integers, Sequences, Json, IOUtils, TLC

CONSTANT Watch

Traces == ndJsonDeserialize(IOEnv.TRACES)

VARIABLES tr, pos, bad, run, phase, tris, fan, fault, result, known, cur, others, shared

vars == <<tr, pos, bad, run, phase, tris, fan, fault, result, known, cur, others, shared>>

T == INSTANCE Session
F == INSTANCE Formats

RunOf(t, w) == [pts |-> t.pts, rings |-> t.rings, winding |-> w, reject |-> "none"]

Init ==
    /\ tr \in 1..Len(Traces)
    /\ run = RunOf(Traces[tr], "ccw")
    /\ pos = 0
    /\ bad = {}
    /\ phase = "returned"
    /\ tris = <<>>
    /\ fan = <<>>
    /\ fault = T!None
    /\ result = T!Pending
    /\ known = T!NothingKnown
    /\ cur = 0
    /\ others = <<>>
    /\ shared = TRUE

Keep == UNCHANGED <<known, cur, others, shared>>

\* A new run: e.r is its winding, e.e tells whether it uses the session's trapezoidation.
Begin(w, s) ==
    /\ bad' = bad \cup (IF phase = "returned" THEN {} ELSE {"harness"})
    /\ T!Begin(RunOf(Traces[tr], w), s)

\* Runs which overlap follow.
Overlap ==
    /\ bad' = bad \cup (IF phase = "returned" THEN {} ELSE {"harness"})
    /\ run' = RunOf(Traces[tr], "ccw")
    /\ phase' = "idle"
    /\ tris' = <<>>
    /\ fan' = <<>>
    /\ fault' = T!None
    /\ result' = T!Pending
    /\ cur' = -1
    /\ others' = <<>>
    /\ shared' = TRUE
    /\ known' = known

\* A whole run into a predefined format with a fresh container.
FormatRun(e) ==
    LET ok == e.r = "ok" /\ F!WellFormed(e.kind, FALSE, e.after, e.delim)
        ts == IF ok THEN F!Decode(e.kind, FALSE, e.after, e.delim) ELSE <<>>
    IN  /\ bad' = bad \cup (IF e.r # "ok" THEN {"success"} ELSE IF ~ok THEN {"reuse"}
                            ELSE IF T!AgreesWhole(e.winding, ts) THEN {} ELSE {"reuse"})
        /\ IF ok THEN T!LearnWhole(e.winding, ts) ELSE known' = known
        /\ tris' = ts
        /\ run' = RunOf(Traces[tr], e.winding)
        /\ UNCHANGED <<phase, fan, fault, result, cur, others, shared>>

\* The triangles decoded from it, on their own.
FormatJudged ==
        /\ bad' = bad \cup (IF ~(\A i \in 1..Len(tris) : \A k \in 1..3 : T!Known(tris[i][k])) THEN {"index"}
                            ELSE (IF \A i \in 1..Len(tris) : T!Turn(tris[i]) >= 0 THEN {} ELSE {"winding"}) \cup (IF tris = <<>> \/ T!Tiles(tris) THEN {} ELSE {"tiling"}))
        /\ UNCHANGED <<run, phase, tris, fan, fault, result>>

Consume ==
    LET e == Traces[tr].ev[pos]  v == e.v IN
    CASE e.e = "init"  -> bad' = bad \cup T!BrokenInitialize(v[1], v[2], v[3]) /\ T!EffInitialize(v[1], v[2], v[3], e.r) /\ Keep
      [] e.e = "linit" -> bad' = bad \cup T!BrokenInitializeList /\ T!EffInitializeList(e.r) /\ Keep
      [] e.e = "fan"   -> bad' = bad \cup T!BrokenNewFan(v[1], v[2], v[3]) /\ T!EffNewFan(v[1], v[2], v[3], e.r) /\ Keep
      [] e.e = "tri"   -> bad' = bad \cup T!BrokenAddTriangle(v[1], v[2], v[3]) /\ T!EffAddTriangle(v[1], v[2], v[3], e.r) /\ Keep
      [] e.e = "ext"   -> bad' = bad \cup T!BrokenExtendFan(v[1]) /\ T!EffExtendFan(v[1], e.r) /\ Keep
      [] e.e = "build" -> bad' = bad \cup T!BrokenBuild /\ T!EffBuild(e.r) /\ Keep
      [] e.e = "fail"  -> bad' = bad \cup T!BrokenFail(e.r) /\ T!EffFail /\ Keep
      [] e.e = "ret"   -> /\ bad' = bad \cup T!BrokenReturn(e.r) \cup T!BrokenAgreement(e.r)
                          /\ T!EffReturn(e.r)
                          /\ T!Learn(e.r)
                          /\ UNCHANGED <<cur, others, shared>>
      [] e.e = "overlap" -> Overlap
      [] e.e = "switch" -> bad' = bad /\ T!Switch(v[1])
      [] e.e = "begin" -> Begin(e.r, TRUE)
      [] e.e = "alone" -> Begin(e.r, FALSE)
      [] e.e = "format" -> FormatRun(e)
      [] e.e = "judge" -> FormatJudged /\ Keep
      \* the input, read again after the history
      [] e.e = "input" -> bad' = bad \cup (IF v = run.pts THEN {} ELSE {"reuse"}) /\ UNCHANGED <<run, phase, tris, fan, fault, result>> /\ Keep

Examine ==
    /\ pos = 0
    /\ pos' = 1
    /\ bad' = IF T!ValidInput(run.pts, run.rings) THEN {} ELSE {"harness"}
    /\ UNCHANGED <<tr, run, phase, tris, fan, fault, result, known, cur, others, shared>>

Step ==
    /\ pos > 0
    /\ pos <= Len(Traces[tr].ev)
    /\ pos' = pos + 1
    /\ tr' = tr
    /\ Consume

Next == Examine \/ Step

Spec == Init /\ [][Next]_vars

HarnessSound == "harness" \notin bad
Detected == pos > Len(Traces[tr].ev) =>
                IF Traces[tr].expect = "none" THEN bad = {} ELSE Traces[tr].expect \in bad
Holds == bad \cap Watch = {}
=============================================================================
