------------------------------ MODULE Streams ------------------------------
(* How a stream of vertices and separators is read as rings, and which       *)
(* streams are refused.  A stream is a sequence of vertex ids; 0 separates   *)
(* rings.                                                                    *)
(*                                                                           *)
(* The reader is a state machine with the state <<rings, current>>: the      *)
(* nonempty rings completed so far, and the vertices since the last          *)
(* separator.                                                                *)
EXTENDS Integers, Sequences, SequencesExt

Separator == 0

Reader0 == [rings |-> <<>>, current |-> <<>>]

ReadSeparator(s) == IF s.current = <<>> THEN s ELSE [rings |-> Append(s.rings, s.current), current |-> <<>>]
ReadVertex(s, v) == [s EXCEPT !.current = Append(@, v)]
Read(s, x) == IF x = Separator THEN ReadSeparator(s) ELSE ReadVertex(s, x)

\* The rings of a stream: its nonempty runs of vertices, in order.
GroupRings(stream) == ReadSeparator(FoldLeft(Read, Reader0, stream)).rings

\* "none", or the error the caller is given: "short1" or "short2" for the first ring which is too short.
RejectOf(stream) ==
    LET rings == GroupRings(stream)
        short == { i \in 1..Len(rings) : Len(rings[i]) < 3 }
    IN  IF rings = <<>> THEN "novertices"
        ELSE IF short = {} THEN "none"
        ELSE LET first == CHOOSE i \in short : \A j \in short : i <= j
             IN  IF Len(rings[first]) = 1 THEN "short1" ELSE "short2"
=============================================================================
