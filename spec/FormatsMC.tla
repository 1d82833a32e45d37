----------------------------- MODULE FormatsMC -----------------------------
(* Every sequence of builder calls up to a length, into every kind of        *)
(* container, with and without previous contents, with a delimiter that is   *)
(* and one that is not a vertex.  Checks that the reference builder meets    *)
(* the requirements of Formats, so that they are consistent and decoding     *)
(* inverts encoding, and prints the behaviours for replay into the           *)
(* implementation's builders.                                                *)
EXTENDS Formats, Json, TLC

CONSTANTS MaxCalls, NumVertices, Emit

VARIABLES kind, pre, delim, store, calls, fan, tris, phase

vars == <<kind, pre, delim, store, calls, fan, tris, phase>>

V == 1..NumVertices
Outside == NumVertices + 1

Previous(k, d) ==
    CASE k = "flat"    -> {<<>>, <<1, 2, 3>>, <<3, 2, 1, 1, 2, 3>>}
      [] k = "triples" -> {<<>>, <<<<1, 2, 3>>>>, <<<<3, 2, 1>>, <<1, 1, 1>>>>}
      [] k = "fans"    -> {<<>>, <<<<1, 2, 3>>>>, <<<<3, 2, 1, 2>>, <<1, 2, 3>>>>}
      [] k = "delim"   -> {<<>>, <<1, 2, 3>>, <<3, 2, 1, 2, d, 1, 2, 3>>, <<d>>}

Init ==
    /\ kind \in Kinds
    /\ delim \in (IF kind = "delim" THEN {1, Outside} ELSE {Outside})
    /\ pre \in Previous(kind, delim)
    /\ store = pre
    /\ calls = <<>>
    /\ fan = <<>>
    /\ tris = <<>>
    /\ phase = "idle"

Triples == { t \in V \X V \X V : t[1] # t[2] /\ t[2] # t[3] /\ t[1] # t[3] }

Refused(vs) == kind = "delim" /\ delim \in vs

Call(e, v) == calls' = Append(calls, [e |-> e, v |-> v])

\* initialize and new_fan
StartFan(t) ==
    /\ phase \in {"idle", "open"}
    /\ Len(calls) < MaxCalls
    /\ Call(IF phase = "idle" THEN "init" ELSE "fan", t)
    /\ fan' = <<t[1], t[3]>>
    /\ tris' = Append(tris, t)
    /\ IF Refused({t[1], t[2], t[3]})
       THEN phase' = (IF phase = "idle" THEN "refused" ELSE "erred") /\ store' = store
       ELSE phase' = "open" /\ store' = StoreFan(kind, store, t, delim)
    /\ UNCHANGED <<kind, pre, delim>>

Extend(v) ==
    /\ phase = "open"
    /\ Len(calls) < MaxCalls
    /\ v \notin {fan[1], fan[2]}
    /\ Call("ext", <<v>>)
    /\ fan' = <<fan[1], v>>
    /\ tris' = Append(tris, <<fan[1], fan[2], v>>)
    /\ IF Refused({v}) THEN phase' = "erred" /\ store' = store
                       ELSE phase' = "open" /\ store' = StoreExtension(kind, store, fan[1], fan[2], v)
    /\ UNCHANGED <<kind, pre, delim>>

Build ==
    /\ phase = "open"
    /\ Call("build", <<>>)
    /\ phase' = "built"
    /\ UNCHANGED <<kind, pre, delim, store, fan, tris>>

\* After an error of the builder itself, or because of an error elsewhere.
Fail ==
    /\ phase \in {"open", "erred"}
    /\ Call("fail", <<>>)
    /\ phase' = "failed"
    /\ store' = SubSeq(store, 1, Len(pre))
    /\ UNCHANGED <<kind, pre, delim, fan, tris>>

Next == (\E t \in Triples : StartFan(t)) \/ (\E v \in V : Extend(v)) \/ Build \/ Fail

Spec == Init /\ [][Next]_vars

Finished == phase \in {"built", "failed", "refused"}

Requirements ==
    /\ phase = "built" => BrokenSuccess(kind, pre, store, tris, delim) = {} /\ ~Collides(kind, tris, delim)
    /\ phase \in {"failed", "refused"} => BrokenFailure(pre, store) = {}
    /\ phase \in {"refused", "erred"} => Collides(kind, tris, delim)

\* Evaluated once per distinct state; with a single worker the lines are not interleaved.
Printed == (Emit /\ Finished) => PrintT("BEHAVIOUR " \o ToJson([kind |-> kind, pre |-> pre, delim |-> delim, calls |-> calls]))
=============================================================================
