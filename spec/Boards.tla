------------------------------- MODULE Boards -------------------------------
(***************************************************************************)
(* Printed boards: board k of a set of boards with Sq[k] = <<nx, ny>>      *)
(* squares has a marker in every second square, numbered on from the       *)
(* boards before it, and (nx-1)(ny-1) inner corners, numbered row by row.  *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, Functions, SequencesExt, FiniteSetsExt
NMarkers(q) == (q[1] * q[2]) \div 2
NCorners(q) == (q[1] - 1) * (q[2] - 1)
RECURSIVE FirstMarker(_, _)
FirstMarker(Sq, k) == IF k = 0 THEN 0 ELSE FirstMarker(Sq, k - 1) + NMarkers(Sq[k])      \* Sq[1] is board 0
Markers(Sq, k) == FirstMarker(Sq, k)..FirstMarker(Sq, k) + NMarkers(Sq[k + 1]) - 1
\* place of corner i on the board, in squares
Place(q, i) == <<i % (q[1] - 1), i \div (q[1] - 1)>>
AllCorners(q) == 0..NCorners(q) - 1
(* ------------------------------------------------ when is it accepted *)
\* on one line
Collinear(q, K) == \A a, b, c \in K :
  LET A == Place(q, a) B == Place(q, b) C == Place(q, c)
  IN (B[1] - A[1]) * (C[2] - A[2]) = (C[1] - A[1]) * (B[2] - A[2])
\* n corners of a board are more than the fraction perc/1000 of all, rounded.
\* exactly half way either rounding is possible (the fraction is stored as a float)
Rounded(q, perc) == LET x == 2 * perc * NCorners(q) + 1000 IN
  IF x % 2000 = 0 THEN {x \div 2000, x \div 2000 - 1} ELSE {x \div 2000}
Enough(q, perc, n) == \A r \in Rounded(q, perc) : n > r
TooFew(q, perc, n) == \A r \in Rounded(q, perc) : n <= r
=============================================================================
