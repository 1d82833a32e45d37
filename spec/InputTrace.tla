----------------------------- MODULE InputTrace -----------------------------
(* Validates what lists were seen to present.  Events:                       *)
(*    open     an iteration is begun                                         *)
(*    vertex   it gives an index            sep   a separator                *)
(*    end      it ends                                                       *)
(*    get      the lookup of an index, and the vertex found (0: none)        *)
(*    count    the number of vertices the list says it has                   *)
(*    run      a run over the list, with its result                          *)
(*    ret      the end of the execution: "ok", or a crash                    *)
EXTENDS Integers, Sequences, FiniteSets, Json, IOUtils, TLC

CONSTANT Watch

Traces == ndJsonDeserialize(IOEnv.TRACES)

VARIABLES tr, pos, bad, polys, single, sub, iters

vars == <<tr, pos, bad, polys, single, sub, iters>>

None == "none"
I == INSTANCE Inputs

Init ==
    /\ tr \in 1..Len(Traces)
    /\ pos = 0
    /\ bad = {}
    /\ polys = Traces[tr].polys
    /\ single = Traces[tr].single
    /\ sub = Traces[tr].sub
    /\ iters = [x \in {} |-> 0]

Consume ==
    LET e == Traces[tr].ev[pos] IN
    CASE e.r = "panic" -> bad' = bad \cup {"panic"} /\ UNCHANGED iters
      [] e.r # "panic" /\ e.e = "open"   -> bad' = bad /\ I!EffOpen(e.i)
      [] e.r # "panic" /\ e.e = "vertex" -> bad' = bad \cup I!BrokenVertex(e.i, e.x) /\ I!EffVertex(e.i)
      [] e.r # "panic" /\ e.e = "sep"    -> bad' = bad \cup I!BrokenSeparator(e.i) /\ I!EffSeparator(e.i)
      [] e.r # "panic" /\ e.e = "end"    -> bad' = bad \cup I!BrokenEnd(e.i) /\ I!EffEnd(e.i)
      [] e.r # "panic" /\ e.e = "get"    -> bad' = bad \cup I!BrokenGet(e.x, e.p) /\ UNCHANGED iters
      [] e.r # "panic" /\ e.e = "count"  -> bad' = bad \cup I!BrokenCount(e.p) /\ UNCHANGED iters
      [] e.r # "panic" /\ e.e \in {"run", "ret"} -> bad' = bad \cup (IF e.r = "ok" THEN {} ELSE {"panic"}) /\ UNCHANGED iters

Examine ==
    /\ pos = 0
    /\ pos' = 1
    /\ bad' = IF I!Proper THEN {} ELSE {"harness"}
    /\ UNCHANGED <<tr, polys, single, sub, iters>>

Step ==
    /\ pos > 0
    /\ pos <= Len(Traces[tr].ev)
    /\ pos' = pos + 1
    /\ tr' = tr
    /\ UNCHANGED <<polys, single, sub>>
    /\ Consume

Next == Examine \/ Step

Spec == Init /\ [][Next]_vars

HarnessSound == "harness" \notin bad
Detected == pos > Len(Traces[tr].ev) =>
                IF Traces[tr].expect = "none" THEN bad = {} ELSE Traces[tr].expect \in bad
Holds == bad \cap Watch = {}
=============================================================================
