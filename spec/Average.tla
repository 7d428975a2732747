------------------------------ MODULE Average ------------------------------
(***************************************************************************)
(* Averaging measured poses.  A measurement is six integers: a rotation    *)
(* vector (tenths of a radian) and a translation.                          *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets
Count(s, P(_)) == Cardinality({i \in 1..Len(s) : P(s[i])})
(* x (in halves) is a median of the k-th components of s *)
MedianOf(s, k, x2) ==
  LET Below(m) == 2 * m[k] < x2
      Above(m) == 2 * m[k] > x2
  IN 2 * Count(s, Below) <= Len(s) /\ 2 * Count(s, Above) <= Len(s)
Same(s) == \A i \in 1..Len(s) : s[i] = s[1]
Majority(s, m) == LET Is(x) == x = m IN 2 * Count(s, Is) > Len(s)
(* s consists of rotations about one axis by angles which are symmetric    *)
(* about the angle a2/2; angles are the first components                   *)
SymmetricAbout(s, a2) ==
  \A v \in {s[i][1] : i \in 1..Len(s)} :
    LET Is(m) == m[1] = v
        Mirror(m) == m[1] = a2 - v
    IN Count(s, Is) = Count(s, Mirror)
=============================================================================
