--------------------------- MODULE LongInputTrace ---------------------------
(* What lists of very many polygons, or of very long ones, were seen to      *)
(* present: Inputs, over stretches instead of single steps.  The list is     *)
(* given as blocks (c polygons of l vertices each, in order; keys are 0, 1,  *)
(* ..., and so are the vertices, through the whole list).  Events:           *)
(*    open     an iteration is begun                                         *)
(*    lead     n separators                                                  *)
(*    stretch  c polygons, from the p-th: the keys k, k+1, ..., k+l-1 of     *)
(*             each, and s separators after each                             *)
(*    end      it ends                                                       *)
(*    get      the lookup of the index <<p, k>>, and the vertex found        *)
(*    count    the number of vertices the list says it has                   *)
(*    ret      the end of the execution: "ok", or a crash                    *)
(* LongInputsMC shows that this accepts what Inputs accepts.                  *)
EXTENDS LongInputs, Json, IOUtils, TLC

CONSTANT Watch

Traces == ndJsonDeserialize(IOEnv.TRACES)

VARIABLES tr, pos, bad

vars == <<tr, pos, bad, blocks, next>>

Init ==
    /\ tr \in 1..Len(Traces)
    /\ pos = 1
    /\ bad = {}
    /\ blocks = Traces[tr].blocks
    /\ next = 0

Consume ==
    LET e == Traces[tr].ev[pos] IN
    CASE e.r = "panic" -> bad' = bad \cup {"panic"} /\ UNCHANGED next
      [] e.r # "panic" /\ e.e = "open"    -> bad' = bad /\ next' = 0
      [] e.r # "panic" /\ e.e = "lead"    -> bad' = bad \cup (IF next = 0 THEN {} ELSE {"separation"}) /\ UNCHANGED next
      [] e.r # "panic" /\ e.e = "stretch" -> bad' = bad \cup BrokenStretch(e.p, e.c, e.k, e.l, e.s) /\ EffStretch(e.p, e.c)
      [] e.r # "panic" /\ e.e = "end"     -> bad' = bad \cup BrokenEnd /\ UNCHANGED next
      [] e.r # "panic" /\ e.e = "get"     -> bad' = bad \cup BrokenGet(e.p, e.k, e.v) /\ UNCHANGED next
      [] e.r # "panic" /\ e.e = "count"   -> bad' = bad \cup BrokenCount(e.v) /\ UNCHANGED next
      [] e.r # "panic" /\ e.e = "ret"     -> bad' = bad \cup (IF e.r = "ok" THEN {} ELSE {"panic"}) /\ UNCHANGED next

Next ==
    /\ pos <= Len(Traces[tr].ev)
    /\ pos' = pos + 1
    /\ UNCHANGED <<tr, blocks>>
    /\ Consume

Spec == Init /\ [][Next]_vars

HarnessSound == Proper
Detected == pos > Len(Traces[tr].ev) =>
                IF Traces[tr].expect = "none" THEN bad = {} ELSE Traces[tr].expect \in bad
Holds == bad \cap Watch = {}
=============================================================================
