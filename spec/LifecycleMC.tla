---------------------------- MODULE LifecycleMC ----------------------------
(* The protocol says what it is meant to say (ProtocolSpec, over all calls   *)
(* up to a number), and a run that Triangulation allows keeps to it          *)
(* (RunSpec, over all runs on the inputs of the catalogue).                  *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, IOUtils

CONSTANTS MaxCalls

VARIABLES phase, fault, told, result, run, tris, fan, calls

vars == <<phase, fault, told, result, run, tris, fan, calls>>

L == INSTANCE Lifecycle
T == INSTANCE Triangulation
\* what is told is not a variable of Triangulation
R == INSTANCE Lifecycle WITH told <- IF phase = "failed" THEN fault ELSE "none"

-----------------------------------------------------------------------------
(* The protocol.  `calls` is the history.                                    *)

Log(what) == calls' = Append(calls, what)

ProtocolInit == L!Idle /\ calls = <<>> /\ run = 0 /\ tris = 0 /\ fan = 0

ProtocolNext ==
    /\ Len(calls) < MaxCalls
    /\ UNCHANGED <<run, tris, fan>>
    /\ \/ \E res \in L!Results : \/ L!Create(res) /\ Log(<<"create", res>>)
                                 \/ L!Call(res) /\ Log(<<"call", res>>)
                                 \/ L!Build(res) /\ Log(<<"build", res>>)
       \/ \E err \in L!Received : L!Fail(err) /\ Log(<<"fail", err>>)
       \/ \E res \in L!Received : L!Return(res) /\ Log(<<"return", res>>)

ProtocolSpec == ProtocolInit /\ [][ProtocolNext]_vars

At(op) == { i \in 1..Len(calls) : calls[i][1] = op }
Returned == At("return") # {}
Received == calls[Len(calls)][2]

\* the builder was created, and was consumed by neither build nor a panic
Alive == /\ \E i \in At("create") : calls[i][2] = L!Ok
         /\ At("build") = {}
         /\ ~\E i \in 1..Len(calls) : calls[i][1] # "return" /\ calls[i][2] = L!Panic

CreatedOnce == Cardinality(At("create")) <= 1 /\ \A i \in At("create") : i = 1
BuiltOnce == Cardinality(At("build")) <= 1
FailedOnce == Cardinality(At("fail")) <= 1
NothingAfter == \A i \in At("build") \cup At("fail") : \A j \in (i + 1)..Len(calls) : calls[j][1] = "return"
ReturnsLast == \A i \in At("return") : i = Len(calls)
\* an error raised by the builder is the last call but for the cleanup, and is what the caller receives
ErrorReceived == \A i \in At("create") \cup At("call") \cup At("build") :
                     calls[i][2] # L!Ok => \A j \in (i + 1)..Len(calls) : calls[j][1] \in {"fail", "return"} /\ calls[j][2] = calls[i][2]
CleanedUp == Returned /\ Alive /\ Received # L!Panic => Cardinality(At("fail")) = 1 /\ \A i \in At("fail") : calls[i][2] = Received
NothingToClean == Returned /\ ~(\E i \in At("create") : calls[i][2] = L!Ok) => At("fail") = {}
Success == Returned /\ Received = L!Ok => At("build") # {} /\ At("fail") = {}
Protocol == CreatedOnce /\ BuiltOnce /\ FailedOnce /\ NothingAfter /\ ReturnsLast /\ ErrorReceived /\ CleanedUp /\ NothingToClean /\ Success

\* vacuity: these are reached
SomeOwnFailure == ~(Returned /\ Received = L!OwnError /\ At("fail") # {})

-----------------------------------------------------------------------------
(* Runs on a valid input.                                                    *)

RunInit ==
    /\ \E w \in {"ccw", "cw"} : T!StartOf([pts |-> <<<<0, 0>>, <<2, 0>>, <<2, 2>>, <<0, 2>>>>, rings |-> <<<<1, 2, 3, 4>>>>, winding |-> w, reject |-> "none"])
    /\ told = "none"
    /\ calls = <<>>

RunNext ==
    /\ Len(tris) <= 2
    /\ told' = told
    /\ \/ calls = <<>> /\ calls' = calls /\ T!NextWith(L!Results)
       \* a list builder
       \/ calls = <<>> /\ calls' = <<"list">> /\ \E res \in L!Results : T!InitializeList(res)
       \/ /\ calls # <<>>
          /\ calls' = calls
          /\ \/ \E res \in L!Results, a, b, c \in 1..4 : T!AddTriangle(a, b, c, res)
             \/ \E res \in L!Results : T!Build(res) \/ T!Fail(res) \/ T!Return(res)

RunSpec == RunInit /\ [][RunNext]_vars

Refines == R!Spec
=============================================================================
