------------------------------- MODULE Config -------------------------------
(***************************************************************************)
(* What a configuration file means: the boards that are printed, the       *)
(* boards that are looked for, and the rig.  Lengths are integers in       *)
(* thousandths of the user's unit.  A list that is not given is <<>>.      *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt

(* the printed boards 0, 1, 2, ...: shape, size, markers *)
Nx(c, p) == IF c.nxs = <<>> THEN c.nx ELSE c.nxs[p + 1]
Ny(c, p) == IF c.nys = <<>> THEN c.ny ELSE c.nys[p + 1]
Size(c, p) == IF c.sizes = <<>> THEN c.size ELSE c.sizes[p + 1]
NbMarkers(c, p) == (Nx(c, p) * Ny(c, p)) \div 2
RECURSIVE FirstMarker(_, _)
FirstMarker(c, p) == IF p = 0 THEN 0 ELSE FirstMarker(c, p - 1) + NbMarkers(c, p - 1)
Markers(c, p) == [i \in 1..NbMarkers(c, p) |-> FirstMarker(c, p) + i - 1]

(* the boards the calibration looks for, in order *)
Selected(c) == IF c.index = <<>> THEN [i \in 1..c.nboard |-> i - 1] ELSE c.index
NbCorners(c, p) == (Nx(c, p) - 1) * (Ny(c, p) - 1)
(* corner k (from 0), row by row *)
Corner(c, p, k) == << (k % (Nx(c, p) - 1)) * Size(c, p), (k \div (Nx(c, p) - 1)) * Size(c, p), 0 >>
Board(c, i) == \* the i-th (from 1) selected board
  LET p == Selected(c)[i] IN
  [ id |-> i - 1, nx |-> Nx(c, p), ny |-> Ny(c, p), size |-> Size(c, p),
    pattern |-> << Nx(c, p), Ny(c, p) >>,
    markers |-> Markers(c, p),
    corners |-> [k \in 1..NbCorners(c, p) |-> Corner(c, p, k - 1)] ]
Rig(c) ==
  [ cams   |-> [i \in 1..c.ncam |-> <<i - 1, IF c.models = <<>> THEN c.model ELSE c.models[i]>>],
    boards |-> [i \in 1..Len(Selected(c)) |-> Board(c, i)],
    opts   |-> c.opts ]
=============================================================================
