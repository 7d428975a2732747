------------------------------- MODULE Files -------------------------------
(***************************************************************************)
(* What the result files say about a calibrated system S:                  *)
(*   S.groups: [id, ref, cams], S.objs: [id, boards], both as sets,        *)
(*   S.views: the observations of objects, as a sequence of [c, f, o, n]   *)
(*   (n corners of object o seen by camera c in frame f).                  *)
(* Each file is abstracted to identities and to truth values which tell    *)
(* whether a number is the one it should be.                               *)
(***************************************************************************)
EXTENDS Calib, SequencesExt
ToSet1(q) == {q[i] : i \in DOMAIN q}
Once(q) == Cardinality(ToSet1(q)) = Len(q)
Count(q, x) == Cardinality({i \in DOMAIN q : q[i] = x})
SameBag(p, q) == Len(p) = Len(q) /\ \A x \in ToSet1(p) \cup ToSet1(q) : Count(p, x) = Count(q, x)
Bad(prop, what, cond) == IF cond THEN {<<prop, what>>} ELSE {}
Ensure(prop, what, cond) == Bad(prop, what, ~cond)

GroupOfCam(S, c) == CHOOSE g \in S.groups : c \in g.cams
Views(S, g) == {i \in DOMAIN S.views : S.views[i].c \in g.cams}

(* ---- cameras: F.nb (every recorded number of cameras), F.entries ---- *)
CameraFile(S, nc, F) ==
  Ensure("C19", "number of cameras", F.nb = <<nc>>) \cup
  Ensure("C19", "a camera is missing, invented, repeated or in the wrong group",
         SameBag([i \in DOMAIN F.entries |-> <<F.entries[i].c, F.entries[i].g>>],
                 SetToSeq(UNION {{<<c, g.id>> : c \in g.cams} : g \in S.groups}))) \cup
  UNION {Ensure("C19", "intrinsics of camera " \o ToString(e.c), e.intr) \cup
         Ensure("C19", "distortion model of camera " \o ToString(e.c), e.model) \cup
         Ensure("C19", "image size of camera " \o ToString(e.c), e.size) \cup
         Ensure("C19", "pose of camera " \o ToString(e.c), e.pose) \cup
         (IF \E g \in S.groups : g.ref = e.c THEN Ensure("C19", "a reference camera is not at the origin", e.ident) ELSE {})
         : e \in ToSet1(F.entries)}

(* ---- corners of objects: F = sequence of [id, cols], a column is <<board, corner, place ok>> ---- *)
ObjectFile(S, npts, F) ==
  Ensure("C20", "objects of the object file", SameBag([i \in DOMAIN F |-> F[i].id], SetToSeq({o.id : o \in S.objs}))) \cup
  UNION {UNION {
    Ensure("C20", "corners of an object",
           SameBag([i \in DOMAIN e.cols |-> <<e.cols[i][1], e.cols[i][2]>>],
                   SetToSeq(UNION {{<<b, k>> : k \in 0..(npts[b + 1] - 1)} : b \in o.boards}))) \cup
    Ensure("C20", "place of a corner", \A i \in DOMAIN e.cols : e.cols[i][3])
    : o \in {x \in S.objs : x.id = e.id}} : e \in ToSet1(F)}

(* ---- poses of objects: F = sequence of [id, cols], a column names frame and reference camera ---- *)
PoseFile(S, F) ==
  Ensure("C20", "objects of the pose file", SameBag([i \in DOMAIN F |-> F[i].id], SetToSeq({o.id : o \in S.objs}))) \cup
  UNION {
    LET mine == SelectSeq(S.views, LAMBDA v : v.o = e.id) IN
    Ensure("C20", "poses of an object",
           SameBag(e.cols, [i \in DOMAIN mine |-> <<mine[i].f, GroupOfCam(S, mine[i].c).ref>>]))
    : e \in ToSet1(F)}

(* ---- errors: F.nb, F.groups = sequence of [id, list, frames = sequence of [f, list, cams = sequence of [c, n, len, ok]]] ---- *)
(* whole: no corner was left out as an outlier *)
ErrorFile(S, whole, F) ==
  Ensure("C21", "groups of the error log", F.nb = <<Cardinality(S.groups)>> /\
         SameBag([i \in DOMAIN F.groups |-> F.groups[i].id], SetToSeq({g.id : g \in S.groups}))) \cup
  UNION {UNION {
    LET frames == {S.views[i].f : i \in Views(S, g)} IN
    Ensure("C21", "frames of a group", /\ SameBag(e.list, SetToSeq(frames))
                                       /\ SameBag([i \in DOMAIN e.frames |-> e.frames[i].f], SetToSeq(frames))) \cup
    UNION {
      LET here == {i \in Views(S, g) : S.views[i].f = x.f}
          cams == {S.views[i].c : i \in here}
          n(c) == MapThenSumSet(LAMBDA i : S.views[i].n, {i \in here : S.views[i].c = c})
      IN Ensure("C21", "cameras of a frame", /\ SameBag(x.list, SetToSeq(cams))
                                             /\ SameBag([i \in DOMAIN x.cams |-> x.cams[i].c], SetToSeq(cams))) \cup
         Ensure("C21", "errors of a camera in a frame", \A i \in DOMAIN x.cams : LET y == x.cams[i] IN
              y.len = y.n /\ (y.n = n(y.c) \/ (~whole /\ y.n > 0 /\ y.n < n(y.c)))) \cup
         Ensure("C21", "an error is not the distance of the points", \A i \in DOMAIN x.cams : x.cams[i].ok)
      : x \in ToSet1(e.frames)}
    : g \in {h \in S.groups : h.id = e.id}} : e \in ToSet1(F.groups)} \cup
  Ensure("C21", "mean error", F.mean)

(* ---- annotated images ---- *)
(* kind: "Detection" or "Reprojection"; one image per camera and image with an observation *)
ImageFiles(kind, asked, imgs, F) ==
  LET mine == SelectSeq(F, LAMBDA x : x.kind = kind) IN
  Ensure("C23", kind \o " images", SameBag([i \in DOMAIN mine |-> <<mine[i].c, mine[i].f>>],
                                        SetToSeq(IF asked = 1 THEN imgs ELSE {}))) \cup
  UNION {Ensure("C23", "a " \o kind \o " image is not a copy of its input", x.copy) \cup
         Ensure("C23", "a point is missing in a " \o kind \o " image", x.drawn) \cup
         Ensure("C23", "something else is drawn in a " \o kind \o " image", x.clean) : x \in ToSet1(mine)}

(* ---- the program ---- *)
(* a path is usable if it names an existing .yml file *)
Usable(p) == p.exists /\ p.file /\ p.ext = ".yml"
Results(camfile) == {camfile, "calibrated_objects_data.yml", "calibrated_objects_pose_data.yml",
                     "reprojection_error_data.yml", "detected_keypoints_data.yml"}
Program(p, camfile, rc, written) ==
  IF Usable(p)
  THEN Ensure("C25", "a usable configuration is refused or fails", rc = 0) \cup
       Ensure("C25", "result files are missing", Results(camfile) \subseteq written)
  ELSE Ensure("C25", "unusable input is not reported by the exit status", rc # 0) \cup
       Ensure("C25", "results of unusable input", written = {})
=============================================================================
