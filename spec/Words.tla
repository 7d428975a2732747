------------------------------- MODULE Words -------------------------------
(***************************************************************************)
(* Motions by name: reduced words over generators 1..n (-g is the inverse  *)
(* of g).  What holds of words holds of whatever motions the generators    *)
(* stand for: tiny rotations, almost half turns, far and near.             *)
(***************************************************************************)
EXTENDS Integers, Sequences
Empty == <<>>
Push(w, g) == IF w # <<>> /\ w[Len(w)] = -g THEN SubSeq(w, 1, Len(w) - 1) ELSE Append(w, g)
RECURSIVE Join(_, _)
Join(a, b) == IF b = <<>> THEN a ELSE Join(Push(a, b[1]), Tail(b))
Back(w) == [i \in 1..Len(w) |-> -w[Len(w) + 1 - i]]
Letters(n) == (1..n) \cup {-g : g \in 1..n}
Reduced(w) == \A i \in 1..Len(w) - 1 : w[i] # -w[i + 1]
=============================================================================
