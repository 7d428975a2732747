---------------------------- MODULE MCKeypoints ----------------------------
(***************************************************************************)
(* Systems built observation by observation, trimmed as pose estimation    *)
(* does, saved and loaded at any time.  Loading what was saved gives the   *)
(* same system and saving that gives the same file.  In simulation mode    *)
(* the histories are printed and replayed on the real program.             *)
(***************************************************************************)
EXTENDS Keypoints, Json, IOUtils
CONSTANTS NC, NF, NB, Corners, PathKinds, PointKinds, SizeKinds, MaxObs
VARIABLES sys, file, trimmed, log
vars == <<sys, file, trimmed, log>>
Rng(s) == {s[i] : i \in DOMAIN s}
\* the corners of an observation, by kind (on a board of 16 corners)
K(h) == CASE h = "one" -> <<1>> [] h = "none" -> <<>> [] h = "two" -> <<0, 1>> [] h = "all" -> [i \in 1..16 |-> i - 1]
          [] h = "some" -> <<2, 5, 6, 7, 11, 12>> [] h = "reversed" -> [i \in 1..9 |-> 14 - i] [] h = "few" -> <<3, 0, 15, 9>>
Init == /\ \E z \in [0..NC - 1 -> SizeKinds] : sys = [sizes |-> z, paths |-> {}, seen |-> {}]
        /\ file = <<>> /\ trimmed = FALSE /\ log = <<>>
Detect == \E c \in 0..NC - 1, f \in 0..NF - 1, b \in 0..NB - 1, h \in Corners, q \in PointKinds, z \in PathKinds :
  /\ Cardinality(sys.seen) < MaxObs
  /\ \A x \in sys.seen : <<x.c, x.f, x.b>> # <<c, f, b>>
  /\ sys' = [sys EXCEPT !.seen = @ \cup {[c |-> c, f |-> f, b |-> b, k |-> K(h), p |-> [i \in DOMAIN K(h) |-> <<q, i>>]]},
                        !.paths = IF \E p \in @ : p[1] = c /\ p[2] = f THEN @ ELSE @ \cup {<<c, f, z>>}]
  /\ log' = Append(log, [c |-> c, f |-> f, b |-> b, k |-> K(h), q |-> q, z |-> PathOf(sys', c, f)])
  /\ UNCHANGED <<file, trimmed>>
Trim == ~trimmed /\ \E x \in sys.seen : \E i \in DOMAIN x.k :
  /\ sys' = [sys EXCEPT !.seen = (@ \ {x}) \cup {[x EXCEPT !.k = RemoveAt(@, i), !.p = RemoveAt(@, i)]}]
  /\ trimmed' = TRUE /\ UNCHANGED <<file, log>>
Write == sys.seen # {} /\ file' = Save(sys) /\ UNCHANGED <<sys, trimmed, log>>
Reload == file # <<>> /\ sys' = Load(file) /\ UNCHANGED <<file, trimmed, log>>
Next == Detect \/ Trim \/ Write \/ Reload
Spec == Init /\ [][Next]_vars
View == <<sys, file, trimmed>>

RoundTrip == Load(Save(sys)) = sys
SameFile == file # <<>> => Save(Load(file)) = file
FilesAreProper == file # <<>> => Proper(file)
AllOnce == \A c \in Cams(sys) : Len(Save(sys)[c].rows) = Cardinality({x \in sys.seen : x.c = c})

(* ------------------------------- simulation: only detections, printed *)
SimSpec == Init /\ [][Detect]_vars
Full == /\ {x.c : x \in sys.seen} = 0..NC - 1
Emit == (Cardinality(sys.seen) = MaxObs /\ Full) =>
          PrintT(<<"KP", ToJson([nc |-> NC, nf |-> NF, nb |-> NB, sizes |-> [i \in 1..NC |-> sys.sizes[i - 1]], obs |-> log])>>)
=============================================================================
