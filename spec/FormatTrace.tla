---------------------------- MODULE FormatTrace ----------------------------
(* Validates what the implementation's formats did to their containers.      *)
(* A recorded execution gives the kind of container, its contents before and *)
(* after, the delimiter, the entry that stands for each vertex id, and       *)
(* either the builder calls in order ("init", "fan", "ext", "build", "fail", *)
(* observed around the builder) or, for a run with nothing in between, the   *)
(* triangles which another run of the same trapezoidation delivered          *)
(* ("whole").                                                                *)
EXTENDS Formats, FiniteSets, Json, IOUtils, TLC

CONSTANT Watch

Traces == ndJsonDeserialize(IOEnv.TRACES)

VARIABLES tr, pos, bad, tris, fan

vars == <<tr, pos, bad, tris, fan>>

t == Traces[tr]

\* The entry for a vertex id.
Entry(v) == IF v \in 1..Len(t.entries) THEN t.entries[v] ELSE t.unknown
TriangleEntries(x) == <<Entry(x[1]), Entry(x[2]), Entry(x[3])>>

Init ==
    /\ tr \in 1..Len(Traces)
    /\ pos = 1
    /\ bad = {}
    /\ tris = <<>>
    /\ fan = <<>>

\* A call that stores entries is refused exactly if one of them is the delimiter.
BrokenStore(entries, r) ==
    LET hit == t.kind = "delim" /\ t.delim \in entries
    IN  IF (r = "ok") = ~hit /\ r \in {"ok", "delim"} THEN {} ELSE {"delimiter"}

Consume ==
    LET e == t.ev[pos]  v == e.v IN
    CASE e.e \in {"init", "fan"} ->
            LET x == TriangleEntries(v) IN
            /\ bad' = bad \cup BrokenStore({x[1], x[2], x[3]}, e.r)
            /\ tris' = Append(tris, x)
            /\ fan' = <<x[1], x[3]>>
      [] e.e = "ext" ->
            LET x == Entry(v[1]) IN
            /\ bad' = bad \cup BrokenStore({x}, e.r)
            /\ tris' = Append(tris, <<fan[1], fan[2], x>>)
            /\ fan' = <<fan[1], x>>
      [] e.e = "build" ->
            /\ bad' = IF e.r = "ok" THEN bad ELSE bad \cup {"decode"}
            /\ UNCHANGED <<tris, fan>>
      [] e.e = "fail" ->
            UNCHANGED <<tris, fan, bad>>
      [] e.e = "whole" ->
            LET ts == [i \in 1..Len(v) |-> TriangleEntries(v[i])]
                hit == Collides(t.kind, ts, t.delim)
            IN  /\ tris' = ts
                /\ bad' = bad \cup (IF e.r = (IF hit THEN "delim" ELSE "ok") THEN {} ELSE {"delimiter"})
                /\ UNCHANGED fan
      \* the result of the whole run, and the contents afterwards
      [] e.e = "obs" ->
            /\ bad' = bad \cup (IF e.r = "ok" THEN BrokenSuccess(t.kind, t.before, e.after, tris, t.delim)
                                             ELSE BrokenFailure(t.before, e.after))
            /\ UNCHANGED <<tris, fan>>
      [] e.e = "ret" -> bad' = bad \cup {"decode"} /\ UNCHANGED <<tris, fan>>

Next ==
    /\ pos <= Len(t.ev)
    /\ pos' = pos + 1
    /\ tr' = tr
    /\ Consume

Spec == Init /\ [][Next]_vars

HarnessSound == tr \in 1..Len(Traces)
Detected == pos > Len(t.ev) => IF t.expect = "none" THEN bad = {} ELSE t.expect \in bad
Holds == bad \cap Watch = {}
=============================================================================
