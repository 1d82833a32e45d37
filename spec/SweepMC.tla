------------------------------ MODULE SweepMC -------------------------------
(* Model checks Sweep against Triangulation: for every input of a catalogue  *)
(* (or every simple polygon with so many vertices on a grid), both windings, *)
(* and a builder which may return an error from any call.                    *)
EXTENDS Sweep, Json, IOUtils

CONSTANTS Width, Height,  \* of the grid; 0 for the catalogue
          Corners,        \* number of vertices of the polygons on the grid
          Errors          \* the errors a builder may return

Catalogue == ndJsonDeserialize(IOEnv.CATALOGUE)

Points == (0 .. Width - 1) \X (0 .. Height - 1)
Polygons == { p \in [1..Corners -> Points] :
                /\ \A i \in 2..Corners : Lower(p[1], p[i])
                /\ ValidInput(p, << [i \in 1..Corners |-> i] >>) }

RunOn(pts, rings, w) == [pts |-> pts, rings |-> rings, winding |-> w, reject |-> None]

Init == \E w \in {"ccw", "cw"} :
          IF Width = 0
          THEN \E k \in 1..Len(Catalogue) : SweepStart(RunOn(Catalogue[k].pts, Catalogue[k].rings, w))
          ELSE \E p \in Polygons : SweepStart(RunOn(p, << [i \in 1..Corners |-> i] >>, w))

Next == SweepNext({Ok} \cup Errors)

Spec == Init /\ [][Next]_<<tvars, svars>> /\ WF_<<tvars, svars>>(Next)

\* Every visible step is one that Triangulation allows.
Refines == [][NextWith({Ok} \cup Errors)]_tvars

\* Nothing gets stuck before the run has returned, and nothing is left over then.
NoStuckCall == \A i \in 1..Len(out) : out[i].e # "stuck"
RunsToEnd == ~ENABLED Next => phase = "returned"
NothingLeft == (phase = "built" => branches = <<>> /\ stash = <<>> /\ chains = <<>>)
Terminates == <>(phase = "returned")

\* The traversal is inside the interior exactly when chains are open.
Inside(c) == c.left # <<>> /\ InteriorEast(run.pts, D!Edges, c.left)
ChainsInside == /\ (chains # <<>>) = Inside(at)
                /\ \A i \in 1..Len(branches) : (branches[i].chains # <<>>) = Inside(branches[i].cell)

\* Open chains run from top to bottom.
Falls(c) == \A i \in 1..(Len(c) - 1) : Lower(P(c[i + 1]), P(c[i]))
ChainsFall == /\ \A i \in 1..Len(chains) : Falls(chains[i])
              /\ \A i \in 1..Len(stash) : Falls(stash[i])
              /\ Len(chains) <= 2
=============================================================================
