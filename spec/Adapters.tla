------------------------------ MODULE Adapters ------------------------------
(* The adapters a format can be wrapped in: into_fan_format (list builders    *)
(* receive the triangles of fans one by one) and reverse_winding.  An adapter *)
(* receives outer calls and makes inner calls; every outer call is recorded   *)
(* together with the inner calls made before it returned:                     *)
(*                                                                            *)
(*    [e, v, r, in]   in: sequence of [e, v, r]                               *)
(*                                                                            *)
(* e is the call, v its vertices, r its result; for "fail", r is the error    *)
(* the builder is told.                                                       *)
EXTENDS Integers, Sequences

Ok == "ok"

Call(e, v, r) == [e |-> e, v |-> v, r |-> r]

\* The inner calls due for an outer call, as far as the results of the inner calls (given in order by res) let it go.
Triangle(kind, fan, e, v) ==
    IF kind = "fans" THEN [e |-> e, v |-> v]
    ELSE [e |-> "tri", v |-> IF e = "ext" THEN <<fan[1], fan[2], v[1]>> ELSE v]

\* Is `in` what the adapter has to do?  Each inner call's own result is taken as it is.
CallsDue(kind, fan, o) ==
    LET in == SelectSeq(o.in, LAMBDA c : c.e # "fail" \/ o.e = "fail")
        same(c, d) == c.e = d.e /\ c.v = d.v
    IN  IF kind = "list" /\ o.e = "init"
        THEN /\ Len(in) >= 1 /\ in[1].e = "linit"
             /\ IF in[1].r # Ok THEN Len(in) = 1
                ELSE Len(in) = 2 /\ same(in[2], Triangle(kind, fan, "init", o.v))
        ELSE /\ Len(in) = 1
             /\ same(in[1], IF o.e \in {"build", "fail"} THEN [e |-> o.e, v |-> <<>>] ELSE Triangle(kind, fan, o.e, o.v))

\* The first error among the inner calls is the outer call's result
ResultDue(o) ==
    LET errors == SelectSeq(o.in, LAMBDA c : c.e # "fail" /\ c.r # Ok)
    IN  IF errors = <<>> THEN Ok ELSE errors[1].r

\* A list builder that exists when its first triangle is refused is told so, since nobody else can
CleanupDue(kind, o) ==
    LET fails == SelectSeq(o.in, LAMBDA c : c.e = "fail")
    IN  IF o.e = "fail" THEN Len(fails) = 1 /\ fails[1].r = o.r
        ELSE IF kind = "list" /\ o.e = "init" /\ Len(o.in) >= 2 /\ o.in[2].r # Ok
        THEN Len(o.in) = 3 /\ Len(fails) = 1 /\ o.in[3].e = "fail" /\ fails[1].r = o.in[2].r
        ELSE fails = <<>>

BrokenOuter(kind, fan, o) ==
    (IF CallsDue(kind, fan, o) THEN {} ELSE {"calls"}) \cup
    (IF o.e = "fail" \/ o.r = ResultDue(o) THEN {} ELSE {"result"}) \cup
    (IF CleanupDue(kind, o) THEN {} ELSE {"cleanup"})

NextFan(fan, o) == IF o.e \in {"init", "fan"} THEN <<o.v[1], o.v[3]>> ELSE IF o.e = "ext" THEN <<fan[1], o.v[1]>> ELSE fan

\* Each reversal exchanges the declared windings; converting a list does not.
Opposite(w) == IF w = "ccw" THEN "cw" ELSE "ccw"
Declared(w, reversals) == IF reversals % 2 = 0 THEN w ELSE Opposite(w)
=============================================================================
