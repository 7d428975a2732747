------------------------------ MODULE MCBoards ------------------------------
(***************************************************************************)
(* Every small set of boards: markers are disjoint, also for any selection *)
(* of boards.  Prints the sets (with a selection, a way of giving the      *)
(* sizes) which are then generated, photographed and detected for real.    *)
(***************************************************************************)
EXTENDS Boards, TLC, Json
CONSTANTS Shapes, MaxBoards
VARIABLES sq, sel, lists
vars == <<sq, sel, lists>>
ShapeOf(s) == CASE s = "a" -> <<5, 5>> [] s = "b" -> <<4, 6>> [] s = "c" -> <<7, 4>> [] s = "d" -> <<3, 5>> [] s = "e" -> <<6, 6>>
                [] s = "f" -> <<4, 4>> [] s = "g" -> <<9, 5>> [] s = "h" -> <<5, 8>> [] s = "i" -> <<3, 3>>
SeqsUpTo(S, n) == UNION {[1..m -> S] : m \in 1..n}
NoRepeat(q) == \A i, j \in DOMAIN q : i # j => q[i] # q[j]
Init == /\ \E w \in SeqsUpTo(Shapes, MaxBoards) : sq = [i \in DOMAIN w |-> ShapeOf(w[i])]
        /\ sel \in {<<>>} \cup {q \in SeqsUpTo(0..Len(sq) - 1, Len(sq)) : NoRepeat(q)}
        /\ lists \in (IF \E x \in {sq[1]} : \A i \in DOMAIN sq : sq[i] = x THEN {TRUE, FALSE} ELSE {TRUE})
Next == UNCHANGED vars
Spec == Init /\ [][Next]_vars
Index == IF sel = <<>> THEN [i \in DOMAIN sq |-> i - 1] ELSE sel
Disjoint == \A i, j \in 0..Len(sq) - 1 : i # j => Markers(sq, i) \cap Markers(sq, j) = {}
Contiguous == UNION {Markers(sq, i) : i \in 0..Len(sq) - 1} = 0..FirstMarker(sq, Len(sq)) - 1
CornersHavePlaces == \A i \in DOMAIN sq : Cardinality({Place(sq[i], k) : k \in AllCorners(sq[i])}) = NCorners(sq[i])
NotAllOnALine == \A i \in DOMAIN sq : ~Collinear(sq[i], AllCorners(sq[i]))
RowsAreLines == \A i \in DOMAIN sq : \A r \in 0..sq[i][2] - 2 : Collinear(sq[i], {k \in AllCorners(sq[i]) : Place(sq[i], k)[2] = r})
Emit == PrintT(<<"SET", ToJson([sq |-> sq, sel |-> sel, lists |-> lists])>>)
=============================================================================
