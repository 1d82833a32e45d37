--------------------------- MODULE LifecycleTrace ---------------------------
(* Validates runs recorded on inputs which break the preconditions.  One     *)
(* trapezoidation may be used several times ("again"); the runs of one       *)
(* builder winding then agree as far as they go.                             *)
EXTENDS Integers, Sequences, Json, IOUtils, TLC

CONSTANT Watch

Traces == ndJsonDeserialize(IOEnv.TRACES)

VARIABLES tr, pos, bad, phase, fault, told, result, known, at

vars == <<tr, pos, bad, phase, fault, told, result, known, at>>

L == INSTANCE Lifecycle

Init ==
    /\ tr \in 1..Len(Traces)
    /\ pos = 1
    /\ bad = {}
    /\ L!Idle
    /\ known = <<>>   \* the triangle calls of the longest run of the trapezoidation so far
    /\ at = 0         \* how many this run has made

t == Traces[tr]
Creates == {"init", "linit"}
Calls == {"fan", "ext", "tri"}

\* An index stands for one of the list's vertices.
BrokenIndices(v) == IF \A i \in 1..Len(v) : v[i] \in 1..t.n THEN {} ELSE {"index"}

\* The same trapezoidation makes the same calls.
BrokenRepeat(e) == IF at < Len(known) /\ known[at + 1] # <<e.e, e.v>> THEN {"reuse"} ELSE {}

\* A run nobody has interrupted goes as far as any.
BrokenEnd(res) == IF fault = L!None /\ res \notin {"hang", "crash"} /\ at < Len(known) THEN {"reuse"} ELSE {}

Recall(e) ==
    /\ at' = at + 1
    /\ known' = IF at < Len(known) THEN known ELSE Append(known, <<e.e, e.v>>)

Consume ==
    LET e == t.ev[pos] IN
    CASE e.e \in Creates -> bad' = bad \cup L!BrokenCreate \cup BrokenIndices(e.v) \cup BrokenRepeat(e) /\ L!EffCreate(e.r) /\ Recall(e)
      [] e.e \in Calls   -> bad' = bad \cup L!BrokenCall \cup BrokenIndices(e.v) \cup BrokenRepeat(e) /\ L!EffCall(e.r) /\ Recall(e)
      [] e.e = "build"   -> bad' = bad \cup L!BrokenCall \cup BrokenRepeat(e) /\ L!EffBuild(e.r) /\ Recall(e)
      [] e.e = "fail"    -> bad' = bad \cup L!BrokenFail(e.r) /\ L!EffFail(e.r) /\ UNCHANGED <<known, at>>
      [] e.e = "ret"     -> bad' = bad \cup L!BrokenReturn(e.r) \cup BrokenEnd(e.r) /\ L!EffReturn(e.r) /\ UNCHANGED <<known, at>>
      \* another run of the same trapezoidation, or of another one
      [] e.e \in {"again", "anew"} ->
            /\ bad' = bad \cup (IF phase \in {"idle", "returned"} THEN {} ELSE {"harness"})
            /\ phase' = "idle"
            /\ fault' = L!None
            /\ told' = L!None
            /\ result' = L!Pending
            /\ at' = 0
            /\ known' = IF e.e = "again" THEN known ELSE <<>>

Next ==
    /\ pos <= Len(t.ev)
    /\ pos' = pos + 1
    /\ tr' = tr
    /\ Consume

Spec == Init /\ [][Next]_vars

HarnessSound == "harness" \notin bad
Detected == pos > Len(t.ev) => IF t.expect = "none" THEN bad = {} ELSE t.expect \in bad
Holds == bad \cap Watch = {}
=============================================================================
