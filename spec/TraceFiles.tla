----------------------------- MODULE TraceFiles -----------------------------
(***************************************************************************)
(* Judges the files written by real runs.  A line holds the scenario (what *)
(* was seen), possibly the final state of the program, and the files.      *)
(***************************************************************************)
EXTENDS Files, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES l, bad
Ev == Trace[l]
Obs(e) == {[c |-> o.c, f |-> o.f, b |-> o.b] : o \in ToSet1(e.obs)}
Corners(e, c, f, B) == MapThenSumSet(LAMBDA o : o.n, {o \in ToSet1(e.obs) : o.c = c /\ o.f = f /\ o.b \in B})

(* the system the program was left with ... *)
FromState(e) ==
  [groups |-> {[id |-> g.id, ref |-> g.ref, cams |-> ToSet1(g.cams)] : g \in ToSet1(e.state.groups)},
   objs |-> {[id |-> o.id, boards |-> ToSet1(o.boards)] : o \in ToSet1(e.state.objs)},
   views |-> e.state.views]
(* ... or the one its files tell of *)
FromFiles(e) ==
  LET ids == {x.g : x \in ToSet1(e.cams.entries)}
      grp(i) == {x \in ToSet1(e.cams.entries) : x.g = i}
      ref(i) == LET R == {x.c : x \in {y \in grp(i) : y.ident}} IN IF R = {} THEN -1 ELSE Min(R)
      made == {[id |-> o.id, boards |-> {o.cols[i][1] : i \in DOMAIN o.cols}] : o \in ToSet1(e.objs)}
      keys == {<<x.c, x.f, o.id>> : x \in Obs(e), o \in made}
      real == {k \in keys : \E o \in made : o.id = k[3] /\ \E x \in Obs(e) : x.c = k[1] /\ x.f = k[2] /\ x.b \in o.boards}
      seqd == SetToSeq(real)
  IN [groups |-> {[id |-> i, ref |-> ref(i), cams |-> {x.c : x \in grp(i)}] : i \in ids}, objs |-> made,
      views |-> [i \in DOMAIN seqd |->
        [c |-> seqd[i][1], f |-> seqd[i][2], o |-> seqd[i][3],
         n |-> Corners(e, seqd[i][1], seqd[i][2], (CHOOSE o \in made : o.id = seqd[i][3]).boards)]]]

Sound(e, S) ==      \* the files can be read as a system at all
  /\ Cardinality({o.id : o \in S.objs}) = Cardinality(S.objs)
  /\ \A v \in ToSet1(S.views) : \E g \in S.groups : v.c \in g.cams
FilesOf(e, S) ==
  IF ~Sound(e, S) THEN {<<"C19", "cameras with observations are in no group">>} ELSE
  CameraFile(S, e.nc, e.cams) \cup ObjectFile(S, e.npts, e.objs) \cup PoseFile(S, e.poses) \cup ErrorFile(S, e.whole, e.log) \cup
  Ensure("C19", "name of the camera file", e.camfile \in ToSet1(e.written) /\ ToSet1(e.written) \subseteq Results(e.camfile))

(* a calibration of consistent data *)
Calibrated(e, S) ==
  Ensure("C22", "the groups and objects are not those which the observations relate",
         <<{o.boards : o \in S.objs}, {g.cams : g \in S.groups}>> \in Outcomes(Obs(e))) \cup
  (IF ~e.exact THEN {} ELSE
   Ensure("C22", "a camera is not where it is", \A x \in ToSet1(e.cams.entries) : x.pose) \cup
   Ensure("C22", "intrinsics are not the true ones", \A x \in ToSet1(e.cams.entries) : x.intr) \cup
   Ensure("C22", "a corner is not where it is", \A o \in ToSet1(e.objs) : \A i \in DOMAIN o.cols : o.cols[i][3]) \cup
   Ensure("C22", "an object is not where it is", \A o \in ToSet1(e.poses) : \A i \in DOMAIN o.cols : o.cols[i][1] >= 0)) \cup
  Ensure("C22", "consistent data are not fitted", e.fitted)

Judge(e) ==
  CASE e.kind = "driver" -> IF ~e.ok THEN {<<p, "the run ended abnormally">> : p \in ToSet1(e.props)}
                            ELSE IF ~e.readable THEN {<<p, "a file cannot be read">> : p \in ToSet1(e.props)}
                            ELSE FilesOf(e, FromState(e))
    [] e.kind = "program" -> IF ~e.ok THEN {<<"C22", "the program failed">>}
                             ELSE IF ~e.readable THEN {<<"C22", "a file cannot be read">>}
                             ELSE LET S == FromFiles(e) IN Calibrated(e, S) \cup FilesOf(e, S)
    [] e.kind = "images" -> IF ~e.ok THEN {<<"C23", "the program failed">>}
                            ELSE ImageFiles("Detection", e.detection, {<<o.c, o.f>> : o \in Obs(e)}, e.images) \cup
                                 ImageFiles("Reprojection", e.reprojection, {<<o.c, o.f>> : o \in Obs(e)}, e.images) \cup
                                 Ensure("C23", "an input image was modified", e.inputs)
    [] e.kind = "start" -> Program(e.path, e.camfile, e.rc, ToSet1(e.written)) \cup
                           Ensure("C25", "result files outside of the output folder", e.stray = <<>>) \cup
                           Ensure("C25", "old result files remain", e.fresh)

TInit == l = 1 /\ bad = {} /\ CInit({})
TNext == /\ l <= Len(Trace) /\ l' = l + 1 /\ UNCHANGED cvars
         /\ bad' = bad \cup {[id |-> Ev.id, prop |-> q[1], what |-> q[2]] : q \in Judge(Ev)}
TSpec == TInit /\ [][TNext]_<<l, bad, cvars>>
Report == l = Len(Trace) + 1 => PrintT(<<"DONE", ToJson([n |-> l - 1, bad |-> bad])>>)
=============================================================================
