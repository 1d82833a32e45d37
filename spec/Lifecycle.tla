----------------------------- MODULE Lifecycle -----------------------------
(* The protocol between the library, an output builder and the caller, on    *)
(* any input at all.  If the input breaks the preconditions (edges cross,    *)
(* vertices coincide, coordinates are not numbers) nothing is promised of    *)
(* the triangles or of the outcome, and the library may find out when half   *)
(* of the triangles are delivered.  A run which returns has nevertheless     *)
(* kept to the protocol: calls in order, exactly one cleanup if it failed,   *)
(* and the caller receives what the builder was told.                        *)
(*                                                                           *)
(* On valid inputs this is implied by Triangulation (see LifecycleMC).       *)
EXTENDS Integers, Sequences, TLC

VARIABLES
    phase,   \* as in Triangulation
    fault,   \* the error a builder call has raised, or None
    told,    \* the error fail was told, until the run returns
    result   \* what the caller received, or Pending

lvars == <<phase, fault, told, result>>

None == "none"
Pending == "pending"
Ok == "ok"
NoVertices == "novertices"
Panic == "panic"

\* Errors of the library's own, in one step and in the other.
TrapezoidationError == "trapezoidation-internal"
OwnError == "triangulation-internal"

\* The library gave up, or was given up.
GaveUp == {Panic, "hang", "crash"}

After(res, good, poor) == IF res = Ok THEN good ELSE IF res = Panic THEN "unwound" ELSE poor

BrokenCreate == IF phase = "idle" THEN {} ELSE {"protocol"}
BrokenCall == IF phase = "open" THEN {} ELSE {"protocol"}

\* Either the builder's error or an error of the library's own is due for cleanup.
BrokenFail(err) ==
    IF phase \notin {"erred", "open"} THEN {"protocol"}
    ELSE IF phase = "erred" THEN (IF err = fault THEN {} ELSE {"error"})
    ELSE IF err = OwnError THEN {} ELSE {"error"}

BrokenReturn(res) ==
    IF result # Pending THEN {"protocol"}
    ELSE IF fault # None THEN
         (IF res = fault THEN {} ELSE {"error"}) \cup (IF phase \in {"refused", "failed", "spoiled", "unwound"} THEN {} ELSE {"cleanup"})
    ELSE IF res \in GaveUp THEN {}
    ELSE IF res = Ok THEN (IF phase = "built" THEN {} ELSE {"protocol"})
    ELSE IF res \in {NoVertices, TrapezoidationError} THEN (IF phase = "idle" THEN {} ELSE IF phase = "open" THEN {"cleanup"} ELSE {"error"})
    ELSE IF res = OwnError THEN (IF phase = "idle" \/ (phase = "failed" /\ told = OwnError) THEN {} ELSE {"cleanup"})
    ELSE {"error"}

EffCreate(res) ==
    /\ phase' = After(res, "open", "refused")
    /\ fault' = IF res = Ok THEN fault ELSE res
    /\ UNCHANGED <<told, result>>

EffCall(res) ==
    /\ phase' = After(res, phase, "erred")
    /\ fault' = IF res = Ok THEN fault ELSE res
    /\ UNCHANGED <<told, result>>

EffBuild(res) ==
    /\ phase' = After(res, "built", "spoiled")
    /\ fault' = IF res = Ok THEN fault ELSE res
    /\ UNCHANGED <<told, result>>

EffFail(err) ==
    /\ phase' = "failed"
    /\ told' = err
    /\ UNCHANGED <<fault, result>>

EffReturn(res) ==
    /\ phase' = "returned"
    /\ told' = None
    /\ result' = res
    /\ UNCHANGED fault

Idle ==
    /\ phase = "idle"
    /\ fault = None
    /\ told = None
    /\ result = Pending

Create(res) == BrokenCreate = {} /\ EffCreate(res)
Call(res)   == BrokenCall = {} /\ EffCall(res)
Build(res)  == BrokenCall = {} /\ EffBuild(res)
Fail(err)   == BrokenFail(err) = {} /\ EffFail(err)
Return(res) == BrokenReturn(res) = {} /\ EffReturn(res)

\* What a builder's calls may return, and a caller may receive
NextWith(builder, caller) ==
    \/ \E res \in builder : Create(res) \/ Call(res) \/ Build(res)
    \/ \E err \in caller : Fail(err)
    \/ \E res \in caller : Return(res)

Results == {Ok, "e1", "e2", Panic}
Received == Results \cup {NoVertices, TrapezoidationError, OwnError}

Spec == Idle /\ [][NextWith(Results, Received)]_lvars
=============================================================================
