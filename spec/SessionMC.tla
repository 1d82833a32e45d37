----------------------------- MODULE SessionMC -----------------------------
(* All histories of a few overlapping runs over the trapezoidation of one    *)
(* polygon, in which builders may refuse calls or panic.  The deliberate     *)
(* nondeterminism of Triangulation (which of the possible sequences of       *)
(* triangles a run delivers) is settled by Session once and for all.         *)
EXTENDS Session

CONSTANTS Pts, Ids, Runs, Longest, Results

Triangle == <<<<0, 0>>, <<4, 1>>, <<1, 3>>>>
Square == <<<<0, 0>>, <<4, 0>>, <<4, 4>>, <<0, 4>>>>

VARIABLES finished,  \* <<winding, triangles>> of the runs that completed
          left       \* runs that may still be begun

RunFor(w) == [pts |-> Pts, rings |-> <<[i \in 1..Len(Pts) |-> i]>>, winding |-> w, reject |-> None]

Init ==
    /\ StartOf(RunFor("ccw"))
    /\ known = NothingKnown
    /\ cur = 1
    /\ others = <<>>
    /\ shared = TRUE
    /\ finished = {}
    /\ left = Runs - 1

SwitchTo == \E id \in Ids \ {cur} : Switch(id) /\ UNCHANGED <<finished, left>>

Another ==
    /\ phase = "returned"
    /\ left > 0
    /\ left' = left - 1
    /\ \E w \in {"ccw", "cw"} : Begin(RunFor(w), TRUE)
    /\ UNCHANGED finished

Call ==
    /\ phase # "returned"
    /\ \/ \E a, b, c \in DOMAIN Pts, res \in Results : Initialize(a, b, c, res) \/ NewFan(a, b, c, res)
       \/ \E v \in DOMAIN Pts, res \in Results : phase = "open" /\ ExtendFan(v, res)
       \/ \E res \in Results : Build(res)
       \/ \E res \in Results : Fail(res)
    /\ Len(tris') <= Longest
    /\ UNCHANGED <<known, cur, others, shared, finished, left>>

End ==
    /\ phase # "returned"
    /\ \E res \in Results :
        /\ Return(res)
        /\ BrokenAgreement(res) = {}
        /\ Learn(res)
        /\ finished' = IF res = Ok THEN finished \cup {<<run.winding, tris>>} ELSE finished
    /\ UNCHANGED <<cur, others, shared, left>>

Next == SwitchTo \/ Another \/ Call \/ End

Spec == Init /\ [][Next]_<<tvars, svars, finished, left>>

\* C11: all complete runs of one winding deliver the same triangles, in the same order
Agreement == \A a, b \in finished : a[1] = b[1] => a = b

\* and each of them tiles the polygon, whatever happened in between
Complete == \A f \in finished : Tiles(f[2])
WholeTiles == phase = "built" => Tiles(tris)

\* What is known is what some run delivered
KnownComplete == \A w \in {"ccw", "cw"} : known[w].complete => <<w, known[w].tris>> \in finished

\* Nothing that other runs do shows in a suspended run: checked as an action property
Isolated == [][\A id \in DOMAIN others : IF id = cur' THEN Suspended' = others[id] ELSE others'[id] = others[id]]_<<tvars, svars, finished, left>>

\* What is known never changes once complete, and otherwise only grows
Grows == [][\A w \in {"ccw", "cw"} : /\ known[w].complete => known'[w] = known[w]
                                     /\ IsPrefix(known[w].tris, known'[w].tris)]_<<tvars, svars, finished, left>>
=============================================================================
