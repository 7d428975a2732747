----------------------------- MODULE Keypoints -----------------------------
(***************************************************************************)
(* Observations of boards and the key point file they are kept in.         *)
(* A system: sizes (camera -> image size), paths (set of <<camera, frame,  *)
(* path>>) and seen (set of [c, f, b, k, p]: corners k at points p).       *)
(* A file: per camera its image size and rows [f, path, b, k, p].          *)
(***************************************************************************)
EXTENDS Integers, Sequences, SequencesExt, FiniteSets, TLC
Elems(q) == {q[i] : i \in DOMAIN q}
Earlier(x, y) == x.f < y.f \/ (x.f = y.f /\ x.b < y.b)
PathOf(S, c, f) == (CHOOSE p \in S.paths : p[1] = c /\ p[2] = f)[3]
Row(S, x) == [f |-> x.f, path |-> PathOf(S, x.c, x.f), b |-> x.b, k |-> x.k, p |-> x.p]
Cams(S) == DOMAIN S.sizes
(* frames in order, and the boards of a frame in order *)
Save(S) == [c \in Cams(S) |-> [size |-> S.sizes[c],
              rows |-> SetToSortSeq({Row(S, x) : x \in {y \in S.seen : y.c = c}}, Earlier)]]
Load(F) == [sizes |-> [c \in DOMAIN F |-> F[c].size],
            paths |-> UNION {{<<c, r.f, r.path>> : r \in Elems(F[c].rows)} : c \in DOMAIN F},
            seen |-> UNION {{[c |-> c, f |-> r.f, b |-> r.b, k |-> r.k, p |-> r.p] : r \in Elems(F[c].rows)} : c \in DOMAIN F}]
(* a file that can be the record of a system *)
Proper(F) == \A c \in DOMAIN F :
  /\ \A i, j \in DOMAIN F[c].rows : LET x == F[c].rows[i] y == F[c].rows[j] IN
       /\ i # j => <<x.f, x.b>> # <<y.f, y.b>>
       /\ x.f = y.f => x.path = y.path
  /\ \A i \in DOMAIN F[c].rows : Len(F[c].rows[i].k) = Len(F[c].rows[i].p)
=============================================================================
