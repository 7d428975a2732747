------------------------------ MODULE Display ------------------------------
(***************************************************************************)
(* What the scripts which display results show of a calibrated system with *)
(* one group of cameras and one object.  A record R holds                  *)
(*   n        the number of cameras,   npose   of saved poses of the object*)
(*   boards   the boards of the object,   frames   those of the error log  *)
(*   body     the corners of a camera's drawn body, each as often as drawn *)
(* and for each script what it drew, named: a corner of a body is          *)
(* <<camera, corner>> (-1: at no such place), a cloud of points is a board *)
(* or the number of a pose, a bar tells whether it has the frame's height. *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt
Ensure(what, cond) == IF cond THEN {} ELSE {what}
Values(q) == {q[i] : i \in DOMAIN q}
Count(q, x) == Cardinality({i \in DOMAIN q : q[i] = x})
SameBag(p, q) == Len(p) = Len(q) /\ \A x \in Values(p) \cup Values(q) : Count(p, x) = Count(q, x)
(* every camera's body, at its own pose *)
Bodies(n, body) == [i \in 1..n * Len(body) |-> <<(i - 1) \div Len(body), body[((i - 1) % Len(body)) + 1]>>]
Cameras(what, n, body, drawn) ==
  Ensure("a camera is not drawn at its pose by " \o what, Len(body) > 0 /\ SameBag(Bodies(n, body), drawn))
(* every k-th pose from the first on *)
Sampled(n, s) == \E k \in 1..n : s = [i \in 1..((n - 1) \div k) + 1 |-> (i - 1) * k]
Saved(what, f) == Ensure("the figure is not saved with the results by " \o what, f.saved)
Judge(R) ==
  IF R.refuse      \* not one group of cameras, or another number of cameras than there are in truth
  THEN UNION {Ensure("results which cannot be analysed are accepted by " \o s.name, s.rc # 0) : s \in {x \in Values(R.scripts) : x.refuses}}
  ELSE UNION {
    IF s.rc # 0 THEN {"results are refused by " \o s.name} ELSE
    CASE s.name = "display_calib_cameras" -> Cameras(s.name, R.n, s.body, s.cams) \cup Saved(s.name, s)
      [] s.name = "display_cam_obj_pose" -> Cameras(s.name, R.n, s.body, s.cams) \cup Saved(s.name, s) \cup
           Ensure("the object is not drawn at its poses", Sampled(R.npose, s.clouds))
      [] s.name = "display_calib_object" -> Saved(s.name, s) \cup
           Ensure("the boards of the object are not drawn, each as one cloud", SameBag(s.clouds, SetToSeq(Values(R.boards))))
      [] s.name = "compute_error_statistic" -> Saved(s.name, s) \cup
           Ensure("the bars are not the frames' mean errors in their order", s.bars = [i \in 1..Len(R.frames) |-> <<i - 1, R.frames[i]>>])
      [] s.name = "compute_pose_error_vs_gt" -> Saved(s.name, s) \cup
           Cameras(s.name, 2 * R.n, s.body, s.cams) \cup      \* camera n + i is the true camera i
           UNION {Ensure("wrong " \o k, s.errors[k]) : k \in DOMAIN s.errors}
      [] s.name = "post_calibration_analysis" -> Ensure("the analysis shows something else than its parts", s.same)
    : s \in Values(R.scripts)}
=============================================================================
