------------------------------- MODULE Rigid -------------------------------
(***************************************************************************)
(* The algebra of rigid motions, exactly: rotations of the cube (integer   *)
(* matrices) with integer translations.  A motion is [r, t] with r a       *)
(* sequence of three rows.  Every other copy of this algebra (conjugated   *)
(* by any fixed motion, so with generic real entries) obeys the same laws. *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets
Idx == 1..3
Id3 == <<<<1, 0, 0>>, <<0, 1, 0>>, <<0, 0, 1>>>>
Row(s) == s
Dot(a, b) == a[1] * b[1] + a[2] * b[2] + a[3] * b[3]
Col(m, j) == <<m[1][j], m[2][j], m[3][j]>>
MatMul(a, b) == [i \in Idx |-> [j \in Idx |-> Dot(a[i], Col(b, j))]]
MatVec(a, v) == [i \in Idx |-> Dot(a[i], v)]
Transpose(a) == [i \in Idx |-> [j \in Idx |-> a[j][i]]]
VAdd(a, b) == [i \in Idx |-> a[i] + b[i]]
VNeg(a) == [i \in Idx |-> -a[i]]
Det(m) == m[1][1] * (m[2][2] * m[3][3] - m[2][3] * m[3][2])
        - m[1][2] * (m[2][1] * m[3][3] - m[2][3] * m[3][1])
        + m[1][3] * (m[2][1] * m[3][2] - m[2][2] * m[3][1])
UnitVecs == {<<s, 0, 0>> : s \in {-1, 1}} \cup {<<0, s, 0>> : s \in {-1, 1}} \cup {<<0, 0, s>> : s \in {-1, 1}}
CubeRotations == {m \in {<<a, b, c>> : a \in UnitVecs, b \in UnitVecs, c \in UnitVecs} : Det(m) = 1}

IdMotion == [r |-> Id3, t |-> <<0, 0, 0>>]
Comp(a, b) == [r |-> MatMul(a.r, b.r), t |-> VAdd(MatVec(a.r, b.t), a.t)]   \* first b, then a
Inv(a) == [r |-> Transpose(a.r), t |-> VNeg(MatVec(Transpose(a.r), a.t))]
Apply(a, p) == VAdd(MatVec(a.r, p), a.t)
=============================================================================
