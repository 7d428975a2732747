----------------------------- MODULE TraceCalib -----------------------------
(***************************************************************************)
(* Judges recorded runs of the real calibration.  A line is either the     *)
(* start of a scenario (what was seen, with what lies), or a stage that    *)
(* was executed, with the state found afterwards.  Every broken clause is  *)
(* reported with the property it belongs to.                               *)
(***************************************************************************)
EXTENDS Calib, Json, IOUtils, SequencesExt
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES l, bad, sc, seen
Ev == Trace[l]
Set(q) == ToSet(q)
NoDup(q) == Cardinality(ToSet(q)) = Len(q)
Sets(q) == {ToSet(x) : x \in ToSet(q)}
If(prop, what, cond) == IF cond THEN {} ELSE {<<prop, what>>}

(* ---------------------------------------------------------------- state *)
Valid(t) == {x \in Set(t.bobs) : x.v}
Abs(S) == {[c |-> x.c, f |-> x.f, b |-> x.b] : x \in S}
Obs(t) == Abs(Valid(t))
Obj(t, i) == CHOOSE o \in Set(t.objs) : o.id = i
ObjIds(t) == {o.id : o \in Set(t.objs)}
BoardsIn(t, i) == Set(Obj(t, i).boards)
\* the observed objects by id
OObs(t) == {[c |-> x.c, f |-> x.f, o |-> BoardsIn(t, x.o)] : x \in Set(t.oobs)}
GroupCams(g) == Set(g.cams)
Corners(b) == 0..(sc.npts[b + 1] - 1)

(* ---------------------------------------------------------- invariants *)
\* every list of board observations holds exactly what belongs there
ViewIds(t, kind, key) ==
  {x.id : x \in {y \in Set(t.bobs) :
     CASE kind = "cam" -> y.c = key [] kind = "board" -> y.b = key
       [] kind = "frame" -> y.f = key [] OTHER -> <<y.c, y.f>> = key}}
BobsInv(t) ==
  If("C03", "two observations of one board in one image",
     Cardinality({<<x.c, x.f, x.b>> : x \in Set(t.bobs)}) = Len(t.bobs)) \cup
  UNION {If("C03", "list of observations of " \o v[1] \o " " \o ToString(v[2]),
            NoDup(v[3]) /\ Set(v[3]) = ViewIds(t, v[1], v[2])) : v \in Set(t.bviews)} \cup
  If("C03", "an image or camera or frame with observations is not listed",
     /\ {<<x.c, x.f>> : x \in Set(t.bobs)} = {v[2] : v \in {w \in Set(t.bviews) : w[1] = "image"}}
     /\ {x.f : x \in Set(t.bobs)} = {v[2] : v \in {w \in Set(t.bviews) : w[1] = "frame"}}) \cup
  If("C03", "frames list their images",
     \A v \in Set(t.framecams) : NoDup(v[2]) /\ Set(v[2]) = {<<x.c, x.f>> : x \in {y \in Set(t.bobs) : y.f = v[1]}})

\* a clause which two properties share
Also(prop, S) == {<<prop, q[2]>> : q \in S}
ObjInv(t) ==
  If("C07", "objects share a board", \A p, q \in ObjIds(t) : p # q => BoardsIn(t, p) \cap BoardsIn(t, q) = {}) \cup
  If("C07", "an observed board is in no object", BoardsOf(Obs(t)) \subseteq UNION {BoardsIn(t, i) : i \in ObjIds(t)}) \cup
  If("C07", "an object has a board nobody observed", UNION {BoardsIn(t, i) : i \in ObjIds(t)} \subseteq {x.b : x \in Set(t.bobs)}) \cup
  UNION {LET n == MapThenSumSet(LAMBDA b : sc.npts[b + 1], Set(o.boards)) IN
    If("C07", "the reference board is not in the object", o.ref \in Set(o.boards)) \cup
    If("C07", "the reference is not the lowest board", o.boards # <<>> => o.ref = Min(Set(o.boards))) \cup
    If("C07", "board list", o.oid = o.id /\ NoDup(o.boards) /\ Set(o.bids) = Set(o.boards) /\ o.nb = Len(o.boards) /\ Set(o.posed) = Set(o.boards)) \cup
    If("C07", "corners of the object",
       /\ {<<m[1], m[2]>> : m \in Set(o.map)} = UNION {{<<b, k>> : k \in Corners(b)} : b \in Set(o.boards)}
       /\ Len(o.map) = n /\ o.npts = n /\ Len(o.back) = n
       /\ {m[3] : m \in Set(o.map)} = 0..n - 1
       /\ \A m \in Set(o.map) : m[3] < n /\ m[3] >= 0 => o.back[m[3] + 1] = <<m[1], m[2]>>) \cup
    If("C07", "corners are not where the board's pose puts them", Set(o.placed) = Set(o.boards)) \cup
    If("C18", "the reference board moved", o.ident)
    : o \in Set(t.objs)}

ImageObs(t, c, f, i) == {x \in Valid(t) : x.c = c /\ x.f = f /\ x.b \in BoardsIn(t, i)}
OViewIds(t, kind, key) ==
  {x.id : x \in {y \in Set(t.oobs) :
     CASE kind = "cam" -> y.c = key [] kind = "object" -> y.o = key
       [] kind = "frame" -> y.f = key [] OTHER -> <<y.c, y.f>> = key}}
ById(t, i) == CHOOSE x \in Set(t.oobs) : x.id = i
OobsInv(t) ==
  LET keys == {<<x.c, x.f, x.o>> : x \in Set(t.oobs)} IN
  If("C10", "an object is observed twice in an image", Cardinality(keys) = Len(t.oobs)) \cup
  If("C10", "an object observation is missing or invented",
     keys = UNION {{<<x.c, x.f, i>> : i \in {j \in ObjIds(t) : x.b \in BoardsIn(t, j)}} : x \in Obs(t)}) \cup
  UNION {IF x.o \notin ObjIds(t) THEN {<<"C10", "observation of an unknown object">>} ELSE
    LET W == ImageObs(t, x.c, x.f, x.o) IN
    If("C10", "boards of an object observation",
       /\ NoDup(x.bobs) /\ Set(x.bobs) = {w.id : w \in W}
       /\ NoDup(x.boards) /\ Set(x.boards) = {w.b : w \in W} /\ x.optr = x.o) \cup
    If("C10", "points of an object observation are not those of its corners",
       /\ NoDup(x.pts) /\ x.nuv = x.npts /\ x.npts = Len(x.pts) /\ x.ok
       /\ Set(x.pts) = UNION {{<<w.b, k>> : k \in Set(w.k)} : w \in W})
    : x \in Set(t.oobs)} \cup
  UNION {If("C10", "list of object observations of " \o v[1] \o " " \o ToString(v[2]),
            NoDup(v[3]) /\ Set(v[3]) = OViewIds(t, v[1], v[2])) : v \in Set(t.oviews)} \cup
  If("C10", "object numbers of a list of observations",
     \A v \in Set(t.oidx) : Len(v[1]) = Len(v[2]) /\ \A i \in 1..Len(v[1]) :
        v[2][i] \in {x.id : x \in Set(t.oobs)} => v[1][i] = ById(t, v[2][i]).o)

GroupInv(t) ==
  If("C11", "a camera is in two groups or none",
     /\ \A p, q \in Set(t.groups) : p.id # q.id => GroupCams(p) \cap GroupCams(q) = {}
     /\ CamerasOf(Obs(t)) \subseteq UNION {GroupCams(g) : g \in Set(t.groups)}
     /\ UNION {GroupCams(g) : g \in Set(t.groups)} \subseteq {x.c : x \in Set(t.bobs)}) \cup
  UNION {If("C11", "cameras of a group", g.gid = g.id /\ g.ref \in GroupCams(g) /\ NoDup(g.cam_idx) /\
                                         Set(g.cam_idx) = GroupCams(g) /\ Set(g.posed) = GroupCams(g)) \cup
         If("C18", "the reference camera moved", g.ident) : g \in Set(t.groups)}

GobsInv(t) ==
  LET G(i) == CHOOSE g \in Set(t.groups) : g.id = i
      Mine(i, f) == {x.id : x \in {y \in Set(t.oobs) : y.f = f /\ y.c \in GroupCams(G(i))}}
      Keys == {<<g.g, g.f>> : g \in Set(t.gobs)}
      Due == UNION {{<<g.id, x.f>> : x \in {y \in Set(t.oobs) : y.c \in GroupCams(g)}} : g \in Set(t.groups)}
  IN If("C10", "group observations", Keys = Due /\ Cardinality(Keys) = Len(t.gobs)) \cup
     (IF Keys # Due THEN {} ELSE
     UNION {If("C10", "object observations of a group observation",
               /\ x.gid = x.g /\ NoDup(x.oobs) /\ Set(x.oobs) = Mine(x.g, x.f)
               /\ Len(x.objs) = Len(x.oobs) /\ \A i \in 1..Len(x.objs) : x.objs[i] = ById(t, x.oobs[i]).o)
            : x \in Set(t.gobs)} \cup
     UNION {If("C10", "object observations of a group",
               NoDup(v[3]) /\ Set(v[3]) = {x.id : x \in {y \in Set(t.oobs) : y.c \in GroupCams(G(v[2]))}})
            : v \in Set(t.gviews)} \cup
     If("C10", "group observations of a frame",
        \A v \in Set(t.framegroups) : /\ NoDup(v[2]) /\ v[2] = v[3] /\ \A i \in 1..Len(v[4]) : v[4][i] = v[1]
                                      /\ Set(v[2]) = {k[1] : k \in {q \in Keys : q[2] = v[1]}}) \cup
     If("C10", "frames of a group", \A g \in Set(t.groups) : Set(g.frames) = {k[2] : k \in {q \in Keys : q[1] = g.id}}))

(* ------------------------------------------------------- pairs of poses *)
\* joint: the joint views of a and b, num: how many pairs of observations they hold
PairsOk(prop, pairs, V, Joint(_, _), Num(_, _)) ==
  LET P == {<<e.a, e.b>> : e \in Set(pairs)}
      Due == {p \in V \X V : p[1] # p[2] /\ Joint(p[1], p[2]) # {}}
  IN If(prop, "related pairs", Cardinality(P) = Len(pairs) /\ P = Due) \cup
     UNION {IF <<e.a, e.b>> \notin Due THEN {} ELSE
       If(prop, "relative poses of " \o ToString(<<e.a, e.b>>),
          /\ e.n = Num(e.a, e.b)
          /\ \A i \in 1..e.n : Set(e.cand[i]) \cap Joint(e.a, e.b) # {}
          /\ \A j \in Joint(e.a, e.b) : \E i \in 1..e.n : j \in Set(e.cand[i])) : e \in Set(pairs)}
Major(q, x) == 2 * Cardinality({i \in 1..Len(q) : q[i] = x}) > Len(q)
AvgOk(prop, pairs, avgs) ==
  If(prop, "averaged pairs", {<<e.a, e.b>> : e \in Set(pairs)} = {<<e.a, e.b>> : e \in Set(avgs)}) \cup
  UNION {UNION {
    If(prop, "average of " \o ToString(<<e.a, e.b>>),
       /\ Cardinality(Set(e.cls)) = 1 => m.cls = e.cls[1]
       /\ \A x \in Set(e.tcls) : Major(e.tcls, x) => m.tcls = x
       /\ sc.quat = 0 => \A x \in Set(e.cls) : Major(e.cls, x) => m.cls = x)
    : m \in {q \in Set(avgs) : q.a = e.a /\ q.b = e.b}} : e \in Set(pairs)}
CompsOk(prop, what, comps, due, extra) ==
  If(prop, what, Cardinality(Sets(comps)) = Len(comps) /\ (\A q \in Set(comps) : NoDup(q)) /\
     Sets(comps) \ {{x} : x \in extra} = due \ {{x} : x \in extra})
\* via: for every member the paths that explain its pose
Best(n, V, ref, x, ways) ==
  LET E == EdgesFrom(n) IN Set(ways) \cap BestPaths(V, E, ref, x) # {}

(* --------------------------------------------------------------- stages *)
Loaded(t) ==
  If("C03", "loaded observations", {<<x.c, x.f, x.b, Set(x.k)>> : x \in Set(t.bobs)} =
     {<<o.c, o.f, o.b, Set(o.k)>> : o \in Set(sc.obs)} /\ \A x \in Set(t.bobs) : x.paired)

\* after the pose of every board was estimated
Input(x) == CHOOSE o \in Set(sc.obs) : o.c = x.c /\ o.f = x.f /\ o.b = x.b
Expect(o) == IF o.x = 0 THEN o.l ELSE 1000 + 10 * o.x + o.l
PosesOk(t) ==
  If("C06", "observations appeared or vanished",
     Cardinality(Set(t.bobs)) = Len(sc.obs) /\ {<<x.c, x.f, x.b>> : x \in Set(t.bobs)} = {<<o.c, o.f, o.b>> : o \in Set(sc.obs)}) \cup
  UNION {LET o == Input(x) IN
    If("C06", "corners were invented or are paired wrongly", Set(x.k) \subseteq Set(o.k) /\ NoDup(x.k) /\ (x.v => x.paired)) \cup
    If("C06", "an observation with too few points is valid", Len(x.k) < 4 => ~x.v) \cup
    If("C06", "points which do not agree with the pose were kept", x.v => x.fit) \cup
    (IF ~o.must THEN {} ELSE
       If("C06", "a good observation is not valid", x.v) \cup
       If("C06", "an outlier was kept", Set(x.k) \cap Set(o.out) = {}) \cup
       If("C06", "pose of a good observation", sc.exact => x.l = Expect(o)) \cup
       If("C06", "consistent corners were dropped", Cardinality(Set(x.k)) * 2 > Cardinality(Set(o.k) \ Set(o.out))))
    : x \in {y \in Set(t.bobs) : \E o \in Set(sc.obs) : o.c = y.c /\ o.f = y.f /\ o.b = y.b}}

BoardPairs(t) ==
  PairsOk("C08", t.bp, BoardsOf(Obs(t)), LAMBDA a, b : ImagesShowing(Obs(t), a, b),
          LAMBDA a, b : Cardinality(ImagesShowing(Obs(t), a, b)))
Unsure(t) == {x.b : x \in Set(t.bobs)} \ BoardsOf(Obs(t))
NewObjects(t) ==
  LET O == Obs(t)  n == JointBoards(O)  parts == {BoardsIn(t, i) : i \in ObjIds(t)} IN
  If("C07", "objects are not the boards linked by images",
     parts \ {{x} : x \in Unsure(t)} = ObjectsOf(O)) \cup
  UNION {If("C07", "the reference is not the lowest board", o.ref = Min(Set(o.boards))) \cup
         UNION {IF v[1] = o.ref \/ v[1] \notin BoardsOf(O) THEN {} ELSE
                If("C08", "board " \o ToString(v[1]) \o " is not chained along a best path", Best(n, BoardsOf(O), o.ref, v[1], v[2]))
                : v \in Set(o.via)} : o \in Set(t.objs)}
\* with consistent data every board is where it is
AllBoardsTrue(t) == \A o \in Set(t.objs) : Set(o.boards) \ Unsure(t) \subseteq Set(o.true)
BoardsTrue(prop, t) == If(prop, "a board is not at its place", AllBoardsTrue(t))
CamsTrue(prop, t) == If(prop, "a camera is not at its place", \A g \in Set(t.groups) : GroupCams(g) \cap CamerasOf(Obs(t)) \subseteq Set(g.true))
ViewsTrue(prop, t) == If(prop, "an object is not where it is", \A x \in Set(t.oobs) : x.true)
SceneTrue(prop, t) == If(prop, "an object is not where it is in the group", \A g \in Set(t.gobs) : \A p \in Set(g.poses) : p.true)

CamPairs(t) ==
  LET OO1 == {[c |-> x.c, f |-> x.f, o |-> x.o] : x \in Set(t.oobs)} IN
  PairsOk("C12", t.cp, CamerasOf(OO1), LAMBDA a, b : JointViews(OO1, a, b), LAMBDA a, b : Cardinality(JointViews(OO1, a, b)))
CamCounts(t) == JointCams({[c |-> x.c, f |-> x.f, o |-> x.o] : x \in Set(t.oobs)})
UnsureCams(t) == {x.c : x \in Set(t.bobs)} \ CamerasOf(Obs(t))
NewGroups(t) ==
  LET n == CamCounts(t)  V == CamerasOf(Obs(t)) IN
  If("C11", "groups are not the cameras linked by objects",
     {GroupCams(g) : g \in Set(t.groups)} \ {{x} : x \in UnsureCams(t)} = GroupsOf(OObs(t))) \cup
  UNION {If("C11", "the reference is not the lowest camera", g.ref = Min(GroupCams(g))) \cup
         UNION {IF v[1] = g.ref \/ v[1] \notin V THEN {} ELSE
                If("C12", "camera " \o ToString(v[1]) \o " is not chained along a best path", Best(n, V, g.ref, v[1], v[2]))
                : v \in Set(g.via)} : g \in Set(t.groups)}

ObjPoses(t) ==
  LET G(i) == CHOOSE g \in Set(t.groups) : g.id = i IN
  UNION {LET objsHere == {ById(t, i).o : i \in Set(x.oobs)} IN
    If("C13", "objects without a pose", objsHere \subseteq {p.o : p \in Set(x.poses)}) \cup
    UNION {IF p.o \notin objsHere THEN {} ELSE
      LET cams == {ById(t, i).c : i \in {j \in Set(x.oobs) : ById(t, j).o = p.o}} IN
      If("C13", "pose of an object the reference sees", G(x.g).ref \in cams => G(x.g).ref \in Set(p.src)) \cup
      If("C13", "pose of an object only others see", G(x.g).ref \notin cams => p.mean) \cup
      If("C13", "observations of an object disagree about its pose", p.shared) : p \in Set(x.poses)}
    : x \in Set(t.gobs)}

(* objects seen together *)
Ids(t) == [i \in ObjIds(t) |-> BoardsIn(t, i)]
GroupsNow(t) == {GroupCams(g) : g \in Set(t.groups)}
ObjCounts(t) == JointObjs(OObs(t), GroupsNow(t), Ids(t))
ObjPairs(t) ==
  LET views(a, b) == {<<g.g, g.f>> : g \in {x \in Set(t.gobs) : {a, b} \subseteq {ById(t, i).o : i \in Set(x.oobs)}}}
      num(a, b) == ObjCounts(t)[IF a < b THEN <<a, b>> ELSE <<b, a>>]
  IN PairsOk("C16", t.op2, {x.o : x \in Set(t.oobs)}, views, num)
OldObjs(s) == {BoardsIn(s, i) : i \in ObjIds(s)}
MergeObjs(s, t) ==
  LET n == ObjCounts(s)  V == {x.o : x \in Set(s.oobs)}
      old(i) == {j \in V : BoardsIn(s, j) \subseteq BoardsIn(t, i)}
  IN If("C16", "objects merged", {BoardsIn(t, i) : i \in ObjIds(t)} = MergedObjects(OObs(s), GroupsNow(s))) \cup
     UNION {IF old(o.id) = {} THEN {} ELSE
       If("C16", "reference of a merged object", o.ref = Obj(s, Min(old(o.id))).ref) \cup
       UNION {LET home == CHOOSE j \in V : v[1] \in BoardsIn(s, j) IN
              IF ~\E j \in V : v[1] \in BoardsIn(s, j) THEN {} ELSE
              If("C16", "board " \o ToString(v[1]) \o " is not where the best path puts it",
                 Best(n, V, Min(old(o.id)), home, v[2])) : v \in Set(o.mvia)}
       : o \in Set(t.objs)} \cup Also("C16", {q \in ObjInv(t) : q[1] = "C07"})

(* groups without common objects *)
GrpIds(t) == {g.id : g \in Set(t.groups)}
Grp(t, i) == GroupCams(CHOOSE g \in Set(t.groups) : g.id = i)
FindPairs(t) ==
  If("C14", "a pair of groups was forgotten", {<<v[1], v[2]>> : v \in Set(t.nop)} = {p \in GrpIds(t) \X GrpIds(t) : p[1] # p[2]}) \cup
  UNION {LET B == BestObjectPairs(OObs(t), Grp(t, v[1]), Grp(t, v[2])) IN
    If("C14", "the objects of groups " \o ToString(<<v[1], v[2]>>) \o " are not those seen together most often",
       B # {} => (v[3] \in ObjIds(t) /\ v[4] \in ObjIds(t) /\ <<BoardsIn(t, v[3]), BoardsIn(t, v[4])>> \in B))
    : v \in Set(t.nop)}
CommonOf(t, v) == Cardinality(CommonFrames(OObs(t), Grp(t, v[1]), Grp(t, v[2]), BoardsIn(t, v[3]), BoardsIn(t, v[4])))
RelatedPairs(t) == {<<v[1], v[2]>> : v \in {w \in Set(t.nop) : {w[3], w[4]} \subseteq ObjIds(t) /\ CommonOf(t, w) >= MinCommon}}
\* the false motion of a group's pose, if the scenario has one
LieOf(t, a, b) ==
  LET L == {q[3] : q \in {r \in Set(sc.glies) : r[1] \in Grp(t, a) /\ r[2] \in Grp(t, b)}} IN IF L = {} THEN 0 ELSE Min(L)
FindPoses(t) ==
  If("C14", "relations between groups are missing or invented", {<<v[1], v[2]>> : v \in Set(t.nopose)} = RelatedPairs(t)) \cup
  UNION {If("C14", "relative pose of groups " \o ToString(<<v[1], v[2]>>), v[3] = LieOf(t, v[1], v[2])) : v \in Set(t.nopose)} \cup
  If("C14", "number of common views", \A v \in Set(t.nopose) : \E w \in Set(t.nocnt) : \E x \in Set(t.nop) :
       <<w[1], w[2]>> = <<v[1], v[2]>> /\ <<x[1], x[2]>> = <<v[1], v[2]>> /\ w[3] = CommonOf(t, x))
NoLinks(s) == {<<v[1], v[2]>> : v \in Set(s.nopose)}
SymPairs(R) == R \cup {<<p[2], p[1]>> : p \in R}
GroupGraph(t) ==
  CompsOk("C15", "related groups", t.nocomp, ClassesOf(GrpIds(t), SymPairs(NoLinks(t))),
          {i \in GrpIds(t) : \A x \in Set(t.oobs) : x.c \notin Grp(t, i)})
NoCount(s, p) == Max({w[3] : w \in {x \in Set(s.nocnt) : {x[1], x[2]} = Set(p)}} \cup {0})
MergeGrps(s, t) ==
  LET parts == ClassesOf(GrpIds(s), SymPairs(NoLinks(s)))
      n == [p \in Pairs(GrpIds(s)) |-> IF p \in SymPairs(NoLinks(s)) THEN NoCount(s, p) ELSE 0]
      old(g) == {i \in GrpIds(s) : Grp(s, i) \cap GroupCams(g) # {}}
      ref(i) == (CHOOSE g \in Set(s.groups) : g.id = i).ref
      home(c) == CHOOSE i \in GrpIds(s) : c \in Grp(s, i)
      \* a group which saw no object may be dropped
      blind == {i \in GrpIds(s) : \A x \in Set(s.oobs) : x.c \notin Grp(s, i)}
      known == UNION {Grp(s, i) : i \in GrpIds(s) \ blind}
      Sighted(Q) == {q \in Q : q \cap known # {}}
  IN If("C15", "groups merged", Sighted({GroupCams(g) : g \in Set(t.groups)}) = Sighted({UNION {Grp(s, i) : i \in p} : p \in parts})) \cup
     UNION {IF old(g) = {} THEN {} ELSE
       If("C15", "reference of a merged group", g.ref = ref(Min(old(g)))) \cup
       UNION {If("C15", "camera " \o ToString(v[1]) \o " is not where the best path puts it",
                 Best(n, GrpIds(s), Min(old(g)), home(v[1]), v[2])) : v \in Set(g.mvia)}
       : g \in Set(t.groups)} \cup Also("C15", {q \in GroupInv(t) : q[1] = "C11"})

(* what is known to be right before a stage *)
GoodBoards(t) == \A x \in Valid(t) : x.l = 0
GoodViews(t) == \A x \in Set(t.oobs) : x.true
GoodCams(t) == \A g \in Set(t.groups) : GroupCams(g) \cap CamerasOf(Obs(t)) \subseteq Set(g.true)
GoodScene(t) == \A g \in Set(t.gobs) : \A p \in Set(g.poses) : p.true
GoodLinks(t) == \A v \in Set(t.nopose) : v[3] = 0
When(cond, clause) == IF cond THEN clause ELSE {}

(* refinement; what is minimised is a robust loss, so the fit can only be    *)
(* measured where the data holds no gross errors (tame)                     *)
Tiny == 2000                     \* micro-pixels
Worse(a, b) == b > a + a \div 1000 + Tiny \div 4
Exact(s) == s.op = "perturb" \/ (AllBoardsTrue(s) /\ GoodCams(s) /\ GoodScene(s))
Refined(s, t) ==
  When(sc.tame, If("C18", "the fit got worse", ~Worse(s.err, t.err))) \cup
  When(sc.consistent /\ Exact(s) /\ t.op # "refineAllCameraGroup",
    If("C18", "the exact solution was not reached", t.err <= Tiny) \cup
    \* few views need not determine the intrinsics
    When(t.op = "refineAllCameraGroupAndObjectsAndIntrinsic" => sc.converges,
      BoardsTrue("C18", t) \cup CamsTrue("C18", t) \cup SceneTrue("C18", t)))
RefinedObjects(s, t) ==
  When(sc.tame, If("C18", "the fit of the objects got worse", ~Worse(s.oerr, t.oerr))) \cup
  When(sc.consistent /\ (s.op = "perturb" \/ (AllBoardsTrue(s) /\ GoodViews(s))), BoardsTrue("C18", t) \cup ViewsTrue("C18", t))

(* intrinsics *)
Intrinsics(p, t) == If(p, "intrinsics did not converge to the true ones", \A v \in Set(t.intr) : v[1] \in CamerasOf(Obs(t)) => v[2])
Given(t) == If("C17", "intrinsics are not those of the file", \A v \in Set(t.given) : v[2])

Stage(s, t) ==
  CASE t.op = "loadDetectedKeypoints" -> Loaded(t)
    [] t.op = "estimatePoseAllBoards" -> PosesOk(t)
    [] t.op = "initIntrinsic" -> PosesOk(t) \cup When(sc.fixed, Given(t)) \cup When(sc.converges, Intrinsics("C17", t))
    [] t.op = "initializeCalibrationAllCam" -> When(sc.start # "images", Given(t))
    [] t.op = "refineIntrinsicAndPoseAllCam" -> When(sc.converges, Intrinsics("C17", t) \cup Intrinsics("C18", t) \cup
         If("C18", "the poses of the boards did not converge to the true ones", GoodBoards(t)))
    [] t.op = "computeBoardsPairPose" -> BoardPairs(t)
    [] t.op = "initInterBoardTransform" -> AvgOk("C08", t.bp, t.ib)
    [] t.op = "initInterBoardsGraph" -> CompsOk("C07", "linked boards", t.bcomp, ObjectsOf(Obs(t)), Unsure(t))
    [] t.op \in {"init3DObjects", "calibrate3DObjects"} ->
         NewObjects(t) \cup When(sc.consistent /\ GoodBoards(t), BoardsTrue("C08", t))
    [] t.op = "estimatePoseAllObjects" -> When(sc.consistent /\ AllBoardsTrue(t), ViewsTrue("C06", t))
    [] t.op = "refineAllObject3D" -> RefinedObjects(s, t)
    [] t.op = "computeCamerasPairPose" -> CamPairs(t)
    [] t.op = "initInterCameraTransform" -> AvgOk("C12", t.cp, t.ic)
    [] t.op = "initInterCamerasGraph" -> CompsOk("C11", "linked cameras", t.ccomp, GroupsOf(OObs(t)), UnsureCams(t))
    [] t.op \in {"initCameraGroup", "calibrateCameraGroup"} ->
         NewGroups(t) \cup When(sc.consistent /\ GoodViews(t), CamsTrue("C12", t))
    [] t.op = "computeAllObjPoseInCameraGroup" -> ObjPoses(t) \cup When(sc.consistent /\ GoodViews(t) /\ GoodCams(t), SceneTrue("C13", t))
    [] t.op = "computeObjectsPairPose" -> ObjPairs(t)
    [] t.op = "initInterObjectTransform" -> AvgOk("C16", t.op2, t.io)
    [] t.op = "initInterObjectsGraph" ->
         LET n == ObjCounts(t) IN
         CompsOk("C16", "objects to merge", t.ocomp, ClassesOf(ObjIds(t), SymPairs({p \in DOMAIN n : n[p] > 0})),
                 {i \in ObjIds(t) : \A x \in Set(t.oobs) : x.o # i})
    [] t.op \in {"mergeObjects", "merge3DObjects"} ->
         MergeObjs(s, t) \cup When(sc.consistent /\ AllBoardsTrue(s) /\ GoodScene(s), BoardsTrue("C16", t))
    [] t.op = "findPairObjectForNonOverlap" -> FindPairs(t)
    [] t.op = "findPoseNoOverlapAllCamGroup" -> FindPoses(t)
    [] t.op = "initInterCamGroupGraph" -> GroupGraph(t)
    [] t.op = "mergeCameraGroup" -> MergeGrps(s, t) \cup When(sc.consistent /\ GoodCams(s) /\ GoodLinks(s), CamsTrue("C15", t))
    [] t.op \in {"refineAllCameraGroup", "refineAllCameraGroupAndObjects", "refineAllCameraGroupAndObjectsAndIntrinsic"} ->
         Refined(s, t) \cup
         If("C13", "observations of an object disagree about its refined pose", \A x \in Set(t.gobs) : \A p \in Set(x.poses) : p.shared) \cup
         When(t.op = "refineAllCameraGroupAndObjectsAndIntrinsic" /\ sc.converges, Intrinsics("C17", t) \cup Intrinsics("C18", t))
    [] t.op = "reload" -> If("C17", "a written parameter file is read back differently", \A v \in Set(t.same) : v[2])
    [] OTHER -> {}

(* what holds at every stage, once it has been established *)
After(ops) == seen' \cap ops # {}
Always(t) == IF t.op = "reload" THEN {} ELSE
  BobsInv(t) \cup
  (IF sc.fixed /\ After({"initIntrinsic", "initializeCalibrationAllCam"}) THEN Given(t) ELSE {}) \cup
  (IF After({"init3DObjects", "calibrate3DObjects"}) THEN ObjInv(t) ELSE {}) \cup
  (IF "oobs" \in seen' THEN OobsInv(t) ELSE {}) \cup
  (IF After({"initCameraGroup", "calibrateCameraGroup"}) THEN GroupInv(t) ELSE {}) \cup
  (IF "gobs" \in seen' THEN GobsInv(t) ELSE {})
Marks(op, m) ==
  LET a == m \cup {op}
      b == IF op \in {"initAll3DObjectObs", "mergeAllObjectObs", "calibrate3DObjects", "merge3DObjects"} THEN a \cup {"oobs"}
           ELSE IF op = "mergeObjects" THEN a \ {"oobs", "gobs"} ELSE a
      c == IF op \in {"initAllCameraGroupObs", "mergeAllCameraGroupObs", "calibrateCameraGroup", "merge3DObjects"} THEN b \cup {"gobs"}
           ELSE IF op \in {"mergeAllObjectObs", "mergeCameraGroup"} THEN b \ {"gobs"} ELSE b
  IN c

TInit == l = 1 /\ bad = {} /\ sc = [id |-> -1] /\ seen = {} /\ CInit({})
TNext ==
  /\ l <= Len(Trace) /\ l' = l + 1 /\ UNCHANGED cvars
  /\ CASE Ev.op = "scenario" -> sc' = Ev /\ seen' = {} /\ UNCHANGED bad
       [] Ev.op = "end" -> UNCHANGED <<sc, seen>> /\
            bad' = TLCEval(bad \cup (IF Ev.ok THEN {} ELSE {[id |-> sc.id, op |-> "end", prop |-> p, what |-> "the run ended abnormally in " \o Ev.at] : p \in Set(Ev.props)}))
       [] OTHER -> /\ seen' = TLCEval(Marks(Ev.op, seen)) /\ UNCHANGED sc
                   /\ bad' = TLCEval(bad \cup {[id |-> sc.id, op |-> Ev.op, prop |-> q[1], what |-> q[2]] :
                                       q \in Stage(Trace[l - 1], Ev) \cup Always(Ev)})
TSpec == TInit /\ [][TNext]_<<l, bad, sc, seen, cvars>>
Report == l = Len(Trace) + 1 => PrintT(<<"DONE", ToJson([n |-> l - 1, bad |-> bad])>>)
=============================================================================
