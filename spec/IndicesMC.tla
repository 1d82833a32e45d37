----------------------------- MODULE IndicesMC -----------------------------
(* Checks Indices itself, for all substitutions and index tables up to a     *)
(* bound: a substitution never lets two vertices share an index, and going   *)
(* forth and back is the identity.                                           *)
EXTENDS Indices

CONSTANT Bound

VARIABLES sub, orig

Range == -Bound..Bound
Subs == [mul : {1, -1, 2}, add : {0, 1, -2}, lo : {-Bound, 0}, hi : {1, Bound}, refused : {<<>>, <<1>>}, least : {-Bound, 0}, back : {<<>>, <<0>>}]
Plain == { <<c>> : c \in Range }
Pairs == { <<c, d>> : c, d \in Range }

Init == /\ sub \in Subs
        /\ orig \in { <<i, j>> : i, j \in Plain } \cup { <<i, j>> : i, j \in Pairs }
        /\ \A a, b \in 1..2 : a # b => orig[a] # orig[b]
Spec == Init /\ [][FALSE]_<<sub, orig>>

NoAlias == \A a, b \in 1..Len(orig) : a # b => IndexOf(sub, orig, a) # IndexOf(sub, orig, b)
Identified == \A v \in 1..Len(orig) : VertexOf(sub, orig, IndexOf(sub, orig, v)) = v
RoundTrip == \A v \in 1..Len(orig) : Convertible(sub, orig[v]) =>
                /\ BackConvertible(sub, IndexOf(sub, orig, v))
                /\ \A i \in 1..Len(orig[v]) : Old(sub, New(sub, orig[v][i])) = orig[v][i]
InRange == AllConvertible(sub, orig) => \A v \in 1..Len(orig) : \A i \in 1..Len(orig[v]) : New(sub, orig[v][i]) \in sub.lo..sub.hi
=============================================================================
