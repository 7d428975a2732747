--------------------------- MODULE TraceKeypoints ---------------------------
(***************************************************************************)
(* Judges real savings and loadings.  A line holds what the file given to  *)
(* the program said (given), the system it had then (first), the file it   *)
(* wrote (k1), the system a second run had from that file (second) and     *)
(* the file that run wrote (k2).  Points and paths are numbered: the same  *)
(* number is the same value, bit by bit.                                   *)
(***************************************************************************)
EXTENDS Keypoints, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES l, bad
Ev == Trace[l]
If(what, cond) == IF cond THEN {} ELSE {what}
Sys(r) == [sizes |-> [c \in 0..Len(r.sizes) - 1 |-> r.sizes[c + 1]], paths |-> Elems(r.paths), seen |-> Elems(r.seen)]
File(r) == [c \in 0..Len(r) - 1 |-> r[c + 1]]
(* every list of observations of the system, by camera, frame, board and image *)
Listed(r) == \A v \in Elems(r.views) :
  LET mine == {<<x.c, x.f, x.b>> : x \in {y \in Elems(r.seen) :
        CASE v.kind = "cam" -> y.c = v.key[1] [] v.kind = "board" -> y.b = v.key[1] [] v.kind = "frame" -> y.f = v.key[1]
          [] v.kind = "image" -> <<y.c, y.f>> = v.key}}
  IN Elems(v.items) = mine /\ Len(v.items) = Cardinality(mine)
Once(r) == /\ Len(r.seen) = Cardinality({<<x.c, x.f, x.b>> : x \in Elems(r.seen)})
           /\ Len(r.paths) = Cardinality({<<p[1], p[2]>> : p \in Elems(r.paths)})
Used(S) == [S EXCEPT !.paths = {p \in @ : \E x \in S.seen : x.c = p[1] /\ x.f = p[2]}]
Judge(e) ==
  IF ~e.ok THEN {"a run ended abnormally"} ELSE
  (IF e.given = <<>> THEN {} ELSE
     If("the observations loaded are not those of the file", Used(Sys(e.first)) = Load(File(e.given)))) \cup
  If("an observation twice", Once(e.first) /\ Once(e.second)) \cup
  If("a list of observations is wrong", Listed(e.first) /\ Listed(e.second)) \cup
  If("the file saved is not a record of observations", Proper(File(e.k1))) \cup
  If("the file saved does not hold the observations", Load(File(e.k1)) = Used(Sys(e.first))
     /\ \A c \in DOMAIN File(e.k1) : Len(File(e.k1)[c].rows) = Cardinality({x \in Elems(e.first.seen) : x.c = c})) \cup
  If("the observations loaded again are different", Used(Sys(e.second)) = Used(Sys(e.first))) \cup
  If("saving again gives a different file", e.k2 = e.k1 /\ e.same)
TInit == l = 1 /\ bad = {}
TNext == /\ l <= Len(Trace) /\ l' = l + 1
         /\ bad' = bad \cup {[id |-> Ev.id, what |-> q] : q \in Judge(Ev)}
TSpec == TInit /\ [][TNext]_<<l, bad>>
Report == l = Len(Trace) + 1 => PrintT(<<"DONE", ToJson([n |-> l - 1, bad |-> bad])>>)
=============================================================================
