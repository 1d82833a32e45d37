----------------------------- MODULE StreamsMC -----------------------------
(* Properties of the reader of Streams, for every stream up to a length:     *)
(* leading, trailing and repeated separators have no effect, the vertices    *)
(* are kept in order, and the rings are the maximal runs of vertices.        *)
EXTENDS Streams, FiniteSets, TLC

CONSTANT MaxLen

VARIABLES stream, reader

vars == <<stream, reader>>

Vertices(s) == SelectSeq(s, LAMBDA x : x # Separator)

Init == stream = <<>> /\ reader = Reader0

Next ==
    /\ Len(stream) < MaxLen
    /\ \E x \in {Separator, Len(Vertices(stream)) + 1} :
          stream' = Append(stream, x) /\ reader' = Read(reader, x)

Spec == Init /\ [][Next]_vars

Flatten(rings) == FoldLeft(LAMBDA acc, r : acc \o r, <<>>, rings)

\* The position of vertex v in the stream.
At(v) == CHOOSE i \in 1..Len(stream) : stream[i] = v

ReaderIsGroup == ReadSeparator(reader).rings = GroupRings(stream)
KeepsVertices == Flatten(GroupRings(stream)) = Vertices(stream)
NoEmptyRing == \A i \in 1..Len(GroupRings(stream)) : GroupRings(stream)[i] # <<>>

\* Two vertices are in one ring iff no separator lies between them.
MaximalRuns ==
    LET rings == GroupRings(stream)
        n == Len(Vertices(stream))
    IN  \A u, v \in 1..n : u < v =>
            ((\E i \in 1..Len(rings) : {u, v} \subseteq {rings[i][k] : k \in 1..Len(rings[i])})
             <=> ~\E p \in At(u)..At(v) : stream[p] = Separator)

SeparatorsIdempotent ==
    /\ GroupRings(<<Separator>> \o stream) = GroupRings(stream)
    /\ GroupRings(Append(stream, Separator)) = GroupRings(stream)
    /\ \A p \in 1..Len(stream) : stream[p] = Separator =>
          GroupRings(SubSeq(stream, 1, p) \o <<Separator>> \o SubSeq(stream, p + 1, Len(stream))) = GroupRings(stream)

RejectDocumented ==
    LET rings == GroupRings(stream) IN
    /\ RejectOf(stream) = "novertices" <=> Vertices(stream) = <<>>
    /\ RejectOf(stream) = "none" <=> rings # <<>> /\ \A i \in 1..Len(rings) : Len(rings[i]) >= 3
    /\ RejectOf(stream) \in {"none", "novertices", "short1", "short2"}
=============================================================================
