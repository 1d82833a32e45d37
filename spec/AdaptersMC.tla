----------------------------- MODULE AdaptersMC -----------------------------
(* A reference adapter, driven by every legal sequence of outer calls, with   *)
(* every result of the inner builder.  It meets the requirements of Adapters; *)
(* and those requirements suffice: the inner calls then obey Triangulation's  *)
(* protocol whenever the outer ones do, and deliver the same triangles.       *)
(* Prints the behaviours for replay into the implementation's adapters.       *)
EXTENDS Adapters, Json, TLC

CONSTANTS MaxCalls, NumVertices, Emit

VARIABLES kind, calls, fan, left,               \* the adapter
          phase, tris, ofan, fault,              \* the run as the outer side sees it
          iphase, itris, ifan, ifault,           \* and as the inner builder sees it
          bad                                    \* broken by the inner calls

vars == <<kind, calls, fan, left, phase, tris, ofan, fault, iphase, itris, ifan, ifault, bad>>

V == 1..NumVertices
Run == [pts |-> [ i \in V |-> <<i, i * i>> ], rings |-> << [ i \in V |-> i ] >>, winding |-> "ccw", reject |-> "none"]

O == INSTANCE Triangulation WITH run <- Run, fan <- ofan, result <- "pending"

\* Protocol of the inner side, one call: <<phase, tris, fan, fault, broken>> after it.
\* (A TLA+ instance describes one step of its variables; an outer call may be several inner calls.)
Inner(s, c) ==
    LET p == s[1]
        open == p = "open"
        t == IF c.e = "ext" THEN <<s[3][1], s[3][2], c.v[1]>> ELSE c.v
    IN  CASE c.e \in {"init", "linit"} ->
                << IF c.r = Ok THEN "open" ELSE "refused", IF c.e = "init" /\ c.r = Ok THEN Append(s[2], t) ELSE s[2],
                   IF c.e = "init" THEN <<t[1], t[3]>> ELSE s[3], IF c.r = Ok THEN s[4] ELSE c.r, s[5] \/ p # "idle" >>
          [] c.e \in {"fan", "ext", "tri"} ->
                << IF c.r = Ok THEN p ELSE "erred", IF c.r = Ok THEN Append(s[2], t) ELSE s[2],
                   <<t[1], t[3]>>, IF c.r = Ok THEN s[4] ELSE c.r, s[5] \/ ~open >>
          [] c.e = "build" -> << IF c.r = Ok THEN "built" ELSE "spoiled", s[2], s[3], IF c.r = Ok THEN s[4] ELSE c.r, s[5] \/ ~open >>
          [] c.e = "fail" -> << "failed", s[2], s[3], s[4], s[5] \/ ~((p = "erred" /\ c.r = s[4]) \/ (open /\ c.r = "novertices")) >>

RECURSIVE InnerAll(_, _)
InnerAll(s, cs) == IF cs = <<>> THEN s ELSE InnerAll(Inner(s, Head(cs)), Tail(cs))

Init ==
    /\ kind \in {"list", "fans"}
    /\ calls = <<>> /\ fan = <<>>
    /\ left \in 0..(MaxCalls + 2)     \* the number of inner calls until one is refused
    /\ phase = "idle" /\ tris = <<>> /\ ofan = <<>> /\ fault = "none"
    /\ iphase = "idle" /\ itris = <<>> /\ ifan = <<>> /\ ifault = "none"
    /\ bad = FALSE

Err == "e1"
Res(k) == IF left = k THEN Err ELSE Ok

\* The reference adapter
Made(e, v) ==
    IF kind = "list" /\ e = "init"
    THEN IF left = 0 THEN << Call("linit", <<>>, Err) >>
         ELSE << Call("linit", <<>>, Ok), Call("tri", v, Res(1)) >> \o (IF left = 1 THEN << Call("fail", <<>>, Err) >> ELSE <<>>)
    ELSE << [ e |-> (IF e = "build" THEN "build" ELSE Triangle(kind, fan, e, v).e),
              v |-> (IF e = "build" THEN <<>> ELSE Triangle(kind, fan, e, v).v), r |-> Res(0) ] >>

Outer(e, v) ==
    LET in == Made(e, v)
        r == IF \E i \in 1..Len(in) : in[i].r # Ok THEN Err ELSE Ok
        o == [e |-> e, v |-> v, r |-> r, in |-> in]
        s == InnerAll(<<iphase, itris, ifan, ifault, bad>>, in)
        used == Len(SelectSeq(in, LAMBDA c : c.e # "fail"))
    IN  /\ Len(calls) < MaxCalls
        /\ calls' = Append(calls, o)
        /\ fan' = NextFan(fan, o)
        /\ left' = IF r = Ok THEN left - used ELSE left
        /\ iphase' = s[1] /\ itris' = s[2] /\ ifan' = s[3] /\ ifault' = s[4] /\ bad' = s[5]
        /\ UNCHANGED kind

Vertices == { t \in V \X V \X V : t[1] # t[2] /\ t[2] # t[3] /\ t[1] # t[3] }

Start(t) == /\ phase = "idle" /\ Outer("init", t)
            /\ phase' = IF calls'[Len(calls')].r = Ok THEN "open" ELSE "refused"
            /\ tris' = IF phase' = "open" THEN <<t>> ELSE tris
            /\ ofan' = <<t[1], t[3]>> /\ fault' = IF phase' = "open" THEN fault ELSE Err

Fan(t) == /\ phase = "open" /\ Outer("fan", t)
          /\ phase' = IF calls'[Len(calls')].r = Ok THEN "open" ELSE "erred"
          /\ tris' = IF phase' = "open" THEN Append(tris, t) ELSE tris
          /\ ofan' = <<t[1], t[3]>> /\ fault' = IF phase' = "open" THEN fault ELSE Err

Extend(v) == /\ phase = "open" /\ v \notin {ofan[1], ofan[2]} /\ Outer("ext", <<v>>)
             /\ phase' = IF calls'[Len(calls')].r = Ok THEN "open" ELSE "erred"
             /\ tris' = IF phase' = "open" THEN Append(tris, <<ofan[1], ofan[2], v>>) ELSE tris
             /\ ofan' = <<ofan[1], v>> /\ fault' = IF phase' = "open" THEN fault ELSE Err

Build == /\ phase = "open" /\ Outer("build", <<>>)
         /\ phase' = IF calls'[Len(calls')].r = Ok THEN "built" ELSE "spoiled"
         /\ fault' = IF phase' = "built" THEN fault ELSE Err
         /\ UNCHANGED <<tris, ofan>>

\* After an error of the builder, or because of an error elsewhere
Fail == LET told == IF phase = "erred" THEN fault ELSE "novertices"
            o == [e |-> "fail", v |-> <<>>, r |-> told, in |-> << Call("fail", <<>>, told) >>]
            s == Inner(<<iphase, itris, ifan, ifault, bad>>, o.in[1])
        IN  /\ phase \in {"erred", "open"}
            /\ calls' = Append(calls, o)
            /\ phase' = "failed"
            /\ iphase' = s[1] /\ itris' = s[2] /\ ifan' = s[3] /\ ifault' = s[4] /\ bad' = s[5]
            /\ UNCHANGED <<kind, fan, left, tris, ofan, fault>>

Next == (\E t \in Vertices : Start(t) \/ Fan(t)) \/ (\E v \in V : Extend(v)) \/ Build \/ Fail

Spec == Init /\ [][Next]_vars

\* The requirements hold of the reference adapter ...
RequirementsMet ==
    \A i \in 1..Len(calls) :
        LET RECURSIVE before(_)
            before(k) == IF k = 0 THEN <<>> ELSE NextFan(before(k - 1), calls[k])
        IN  BrokenOuter(kind, before(i - 1), calls[i]) = {}

\* ... the inner side sees a run by the rules, with the same triangles ...
InnerLegal == ~bad
SameTriangles == tris = itris
SameEnd == /\ phase = "built" <=> iphase = "built"
           /\ phase = "failed" => iphase = "failed"
           /\ fault = ifault

\* ... and the outer side is one of Triangulation's runs as far as the protocol goes.
OuterLegal == phase \in O!Phases

Finished == phase \in {"built", "failed", "refused", "spoiled"}
Printed == (Emit /\ Finished) => PrintT("BEHAVIOUR " \o ToJson([kind |-> kind, calls |-> calls]))
=============================================================================
