------------------------------ MODULE MCImages ------------------------------
(***************************************************************************)
(* Folders of image files, what is in them, and which corners are found,   *)
(* drawn at random by TLC (simulation) for runs of the real detection.     *)
(***************************************************************************)
EXTENDS Boards, TLC, Json, Randomization
CONSTANTS NC, MaxFiles, Percs, What
VARIABLES sq, sel, perc, refine, sched, folder
vars == <<sq, sel, perc, refine, sched, folder>>
Shapes == {<<5, 5>>, <<4, 6>>, <<7, 4>>, <<3, 5>>, <<6, 6>>, <<5, 7>>, <<8, 5>>}
Names == {"1", "2", "10", "0001", "a b", "Z", "b", "sub/0", "sub/z", "img.v2", "_x", "0", "sub.d/1", "100"}
Good == {"jpg", "png", "bmp", "jpeg", "jp2", "tiff"}
Foreign == {"txt", "PNG", "gif", "yml", "png~", "pgm"}
Index == IF sel = <<>> THEN [i \in DOMAIN sq |-> i - 1] ELSE sel
Pick(S) == CHOOSE x \in RandomSubset(1, S) : TRUE
Row(q, r) == {k \in AllCorners(q) : Place(q, k)[2] = r}
Column(q, r) == {k \in AllCorners(q) : Place(q, k)[1] = r}
Diagonal(q) == {k \in AllCorners(q) : Place(q, k)[1] = Place(q, k)[2]}
Sub(q, n) == RandomSubset(IF n > NCorners(q) THEN NCorners(q) ELSE IF n < 0 THEN 0 ELSE n, AllCorners(q))
Threshold(q) == CHOOSE r \in Rounded(q, perc) : TRUE
Kinds == {"all", "none", "at", "above", "below", "three", "four", "five", "six", "row", "column", "diagonal", "rowplus", "colplus", "tworows", "some", "half"}
Found(q, h) ==
  CASE h = "all" -> AllCorners(q) [] h = "none" -> {} [] h = "at" -> Sub(q, Threshold(q)) [] h = "above" -> Sub(q, Threshold(q) + 1)
    [] h = "below" -> Sub(q, Threshold(q) - 1) [] h = "three" -> Sub(q, 3) [] h = "four" -> Sub(q, 4) [] h = "five" -> Sub(q, 5)
    [] h = "six" -> Sub(q, 6) [] h = "row" -> Row(q, Pick(0..q[2] - 2)) [] h = "column" -> Column(q, Pick(0..q[1] - 2))
    [] h = "diagonal" -> Diagonal(q) [] h = "rowplus" -> Row(q, Pick(0..q[2] - 2)) \cup {Pick(AllCorners(q))}
    [] h = "colplus" -> Column(q, Pick(0..q[1] - 2)) \cup {Pick(AllCorners(q))}
    [] h = "tworows" -> Row(q, 0) \cup Row(q, 1)
    [] h = "some" -> Sub(q, Pick(5..NCorners(q))) [] h = "half" -> Sub(q, NCorners(q) \div 2)
\* which printed boards an image shows, and the corners left of them
Content == LET S == RandomSubset(Pick(IF What = "corners" THEN {Len(sq)} ELSE 0..Len(sq)), 0..Len(sq) - 1) IN
  {[p |-> x, k |-> IF What = "corners" THEN Found(sq[x + 1], Pick(Kinds)) ELSE AllCorners(sq[x + 1])] : x \in S}
Init == /\ sq \in {[i \in 1..n |-> Pick(Shapes)] : n \in 1..4}
        /\ sel = Pick({<<>>, <<Len(sq) - 1>>, <<Len(sq) - 1, 0>>, [i \in 1..Len(sq) |-> Len(sq) - i]})
        /\ (Len(sq) = 1 => sel = <<>>)
        /\ perc = Pick(Percs) /\ refine = Pick({0, 1})
        /\ sched = [yield |-> Pick({0, 5, 100, 400}), meet |-> Pick({1, 2, 4, 8}), delay |-> Pick({0, 50, 3000}), threads |-> Pick({1, 2, 4, 8, 8})]
        /\ folder = <<>>
Ext(kind) == IF kind = "foreign" THEN Pick(Foreign) ELSE IF What = "corners" THEN "png" ELSE Pick(Good)
KindName(k) == IF What = "corners" THEN "image" ELSE CASE k = 1 -> "broken" [] k = 2 -> "foreign" [] OTHER -> "image"
Add == \E c \in 0..NC - 1, name \in Names :
  /\ Cardinality({i \in DOMAIN folder : folder[i].c = c}) < MaxFiles
  /\ \A i \in DOMAIN folder : folder[i].c = c => folder[i].name # name
  /\ \E kind \in {KindName(Pick(1..6))} : \E ext \in {Ext(kind)} : \E shows \in {Content} :
       folder' = Append(folder, [c |-> c, name |-> name, ext |-> ext, kind |-> kind, shows |-> shows])
  /\ UNCHANGED <<sq, sel, perc, refine, sched>>
Spec == Init /\ [][Add]_vars
Emit == Len(folder) = NC * MaxFiles - 2 =>
  PrintT(<<"IM", ToJson([nc |-> NC, sq |-> sq, sel |-> sel, perc |-> perc, refine |-> refine, sched |-> sched, folder |-> folder])>>)
=============================================================================
