------------------------------ MODULE Formats ------------------------------
(* The predefined output formats: how a container's contents encode          *)
(* triangles, what a run may do to a container, and a reference builder      *)
(* whose states are the contents themselves.                                 *)
(*                                                                           *)
(* Kinds of container:                                                       *)
(*   "flat"     a sequence of entries, three per triangle                    *)
(*   "triples"  a sequence of triangles                                      *)
(*   "fans"     a sequence of fans, each a sequence of at least 3 entries    *)
(*   "delim"    a sequence of entries, fans separated by a delimiter         *)
(* An entry is an index or a vertex value.                                   *)
EXTENDS Integers, Sequences, SequencesExt

Kinds == {"flat", "triples", "fans", "delim"}

DropFirst(s, n) == SubSeq(s, n + 1, Len(s))

-----------------------------------------------------------------------------
(* Decoding.                                                                 *)

FanTriangles(f) == [k \in 1..(Len(f) - 2) |-> <<f[1], f[k + 1], f[k + 2]>>]
FansTriangles(fs) == FlattenSeq([i \in 1..Len(fs) |-> FanTriangles(fs[i])])

\* The runs between delimiters, empty ones included.
Split(s, d) ==
    FoldLeft(LAMBDA acc, x : IF x = d THEN Append(acc, <<>>)
                             ELSE [acc EXCEPT ![Len(acc)] = Append(@, x)],
             << <<>> >>, s)

\* What was appended to the previous contents, without the delimiter that separates it from those.
Body(kind, hadContents, added) == IF kind = "delim" /\ hadContents THEN DropFirst(added, 1) ELSE added

\* The appended part has the shape its kind of container prescribes.
WellFormed(kind, hadContents, added, d) ==
    CASE kind = "flat"    -> Len(added) > 0 /\ Len(added) % 3 = 0
      [] kind = "triples" -> Len(added) > 0 /\ \A i \in 1..Len(added) : Len(added[i]) = 3
      [] kind = "fans"    -> Len(added) > 0 /\ \A i \in 1..Len(added) : Len(added[i]) >= 3
      [] kind = "delim"   ->
            /\ hadContents => (Len(added) > 0 /\ added[1] = d)
            /\ LET fs == Split(Body(kind, hadContents, added), d)
               IN  \A i \in 1..Len(fs) : Len(fs[i]) >= 3

Decode(kind, hadContents, added, d) ==
    CASE kind = "flat"    -> [i \in 1..(Len(added) \div 3) |-> <<added[3 * i - 2], added[3 * i - 1], added[3 * i]>>]
      [] kind = "triples" -> [i \in 1..Len(added) |-> <<added[i][1], added[i][2], added[i][3]>>]
      [] kind = "fans"    -> FansTriangles(added)
      [] kind = "delim"   -> FansTriangles(Split(Body(kind, hadContents, added), d))

-----------------------------------------------------------------------------
(* Requirements on a finished run: `before` and `after` are the contents,    *)
(* `tris` the triangles the run delivered (as entries), `d` the delimiter.   *)

BrokenSuccess(kind, before, after, tris, d) ==
    IF ~IsPrefix(before, after) THEN {"append"}
    ELSE LET added == DropFirst(after, Len(before))
             had == before # <<>>
         IN  IF ~WellFormed(kind, had, added, d) THEN {"shape"}
             ELSE IF Decode(kind, had, added, d) = tris THEN {} ELSE {"decode"}

BrokenFailure(before, after) == IF before = after THEN {} ELSE {"restore"}

\* A delimited format fails iff a triangle uses the delimiter's value.
Collides(kind, tris, d) == kind = "delim" /\ \E i \in 1..Len(tris) : \E k \in 1..3 : tris[i][k] = d

-----------------------------------------------------------------------------
(* The reference builder.  `store` holds the contents including what the     *)
(* unfinished run has added; `base` is the number of elements to go back to. *)

Delimiter(kind, store, d) == IF kind = "delim" /\ store # <<>> THEN <<d>> ELSE <<>>

StoreFan(kind, store, t, d) ==
    CASE kind = "flat"    -> store \o t
      [] kind = "triples" -> Append(store, t)
      [] kind = "fans"    -> Append(store, t)
      [] kind = "delim"   -> store \o Delimiter(kind, store, d) \o t

\* `root` and `last` are those of the fan being extended.
StoreExtension(kind, store, root, last, v) ==
    CASE kind = "flat"    -> store \o <<root, last, v>>
      [] kind = "triples" -> Append(store, <<root, last, v>>)
      [] kind = "fans"    -> [store EXCEPT ![Len(store)] = Append(@, v)]
      [] kind = "delim"   -> Append(store, v)
=============================================================================
