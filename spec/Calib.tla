------------------------------- MODULE Calib -------------------------------
(***************************************************************************)
(* What a calibration derives from who saw what: boards are linked into    *)
(* objects by images, cameras into groups by frames, objects are merged by *)
(* groups and groups by objects seen at the same time.  An observation is  *)
(* [c, f, b] (camera, frame, board); an object is the set of its boards, a *)
(* group the set of its cameras, an object observation [c, f, o].          *)
(***************************************************************************)
EXTENDS GraphOps, TLC

(* ---- weights: 1/n, as integers on the common scale L ---- *)
RECURSIVE Gcd(_, _)
Gcd(a, b) == IF b = 0 THEN a ELSE Gcd(b, a % b)
Lcm(a, b) == (a \div Gcd(a, b)) * b
LcmOf(S) == FoldSet(Lcm, 1, S)
Pairs(V) == {p \in V \X V : p[1] < p[2]}
(* the graph whose edges are the pairs with n[p] > 0 *)
EdgesFrom(n) ==
  LET L == LcmOf({n[p] : p \in DOMAIN n} \ {0})
  IN {[a |-> p[1], b |-> p[2], w |-> L \div n[p]] : p \in {q \in DOMAIN n : n[q] > 0}}
Links(n) == {[a |-> p[1], b |-> p[2], w |-> 1] : p \in {q \in DOMAIN n : n[q] > 0}}

(* ---- boards and objects ---- *)
BoardsOf(O) == {x.b : x \in O}
CamerasOf(O) == {x.c : x \in O}
FramesOf(O) == {x.f : x \in O}
ImagesOf(O) == {<<x.c, x.f>> : x \in O}
ImagesShowing(O, a, b) == {i \in ImagesOf(O) : [c |-> i[1], f |-> i[2], b |-> a] \in O /\ [c |-> i[1], f |-> i[2], b |-> b] \in O}
JointBoards(O) == [p \in Pairs(BoardsOf(O)) |-> Cardinality(ImagesShowing(O, p[1], p[2]))]
ObjectsOf(O) == Components(BoardsOf(O), Links(JointBoards(O)))

(* ---- object observations, cameras and groups ---- *)
ObjObsOf(O, Objs) == {[c |-> x.c, f |-> x.f, o |-> CHOOSE o \in Objs : x.b \in o] : x \in O}
JointViews(OO, c, d) == {<<x.f, x.o>> : x \in {y \in OO : y.c = c /\ [c |-> d, f |-> y.f, o |-> y.o] \in OO}}
JointCams(OO) == [p \in Pairs(CamerasOf(OO)) |-> Cardinality(JointViews(OO, p[1], p[2]))]
GroupsOf(OO) == Components(CamerasOf(OO), Links(JointCams(OO)))
Seen(OO, g, f) == {x \in OO : x.c \in g /\ x.f = f}

(* ---- objects seen together by a group ---- *)
(* n observations of the one times m of the other, in every frame of every group *)
NumOf(OO, o, g, f) == Cardinality({x \in OO : x.o = o /\ x.c \in g /\ x.f = f})
JointObjCount(OO, Groups, o1, o2) ==
  LET at == UNION {{<<g, f>> : f \in {x.f : x \in {y \in OO : y.o = o1 /\ y.c \in g}} \cap {x.f : x \in {y \in OO : y.o = o2 /\ y.c \in g}}} : g \in Groups}
  IN MapThenSumSet(LAMBDA q : NumOf(OO, o1, q[1], q[2]) * NumOf(OO, o2, q[1], q[2]), at)
ObjectsIn(OO) == {x.o : x \in OO}
(* ids: a function from object ids to objects *)
JointObjs(OO, Groups, ids) ==
  [p \in Pairs({i \in DOMAIN ids : ids[i] \in ObjectsIn(OO)}) |-> JointObjCount(OO, Groups, ids[p[1]], ids[p[2]])]
Unions(Parts) == {UNION p : p \in Parts}
RECURSIVE Closure(_, _)
Closure(S, R) == LET N == S \cup {r[2] : r \in {q \in R : q[1] \in S}} IN IF N = S THEN S ELSE Closure(N, R)
ClassesOf(V, R) == {Closure({v}, R) : v \in V}      \* R symmetric
MergedObjects(OO, Groups) ==
  LET together(g, f) == {x.o : x \in Seen(OO, g, f)}
      R == UNION {{p \in together(q[1], q[2]) \X together(q[1], q[2]) : p[1] # p[2]} : q \in Groups \X FramesOf(OO)}
  IN Unions(ClassesOf(ObjectsIn(OO), R))

(* ---- groups related through objects they see at the same time ---- *)
CommonFrames(OO, g1, g2, o1, o2) == {x.f : x \in {y \in OO : y.o = o1 /\ y.c \in g1}} \cap {x.f : x \in {y \in OO : y.o = o2 /\ y.c \in g2}}
PairCount(OO, g1, g2, o1, o2) ==
  MapThenSumSet(LAMBDA f : NumOf(OO, o1, g1, f) * NumOf(OO, o2, g2, f), CommonFrames(OO, g1, g2, o1, o2))
BestObjectPairs(OO, g1, g2) ==
  LET A == ObjectsIn({x \in OO : x.c \in g1})
      B == ObjectsIn({x \in OO : x.c \in g2})
      n == [p \in A \X B |-> PairCount(OO, g1, g2, p[1], p[2])]
      m == Max({n[p] : p \in A \X B} \cup {0})
  IN IF m = 0 THEN {} ELSE {p \in A \X B : n[p] = m}
MinCommon == 4       \* more than three simultaneous views are needed
Relatable(OO, g1, g2, p) == Cardinality(CommonFrames(OO, g1, g2, p[1], p[2])) >= MinCommon
MergedGroups(Groups, R) == Unions(ClassesOf(Groups, R))

(***************************************************************************)
(* The workflow of the program as a state machine over these abstractions. *)
(***************************************************************************)
VARIABLES obs, stage, objs, groups, related
cvars == <<obs, stage, objs, groups, related>>
OO == ObjObsOf(obs, objs)
CInit(O) == obs = O /\ stage = "start" /\ objs = {} /\ groups = {} /\ related = {}
Calibrate3DObjects == stage = "start" /\ stage' = "objects" /\ objs' = ObjectsOf(obs) /\ UNCHANGED <<obs, groups, related>>
CalibrateCameraGroups == stage = "objects" /\ stage' = "groups" /\ groups' = GroupsOf(OO) /\ UNCHANGED <<obs, objs, related>>
Merge3DObjects(from, to) ==
  stage = from /\ stage' = to /\ objs' = MergedObjects(OO, groups) /\ UNCHANGED <<obs, groups, related>>
\* one pair of objects is used for every two groups; ties of the counts are open
MustRelate(O, Groups) == {p \in Groups \X Groups : p[1] # p[2] /\ BestObjectPairs(O, p[1], p[2]) # {}
                            /\ \A q \in BestObjectPairs(O, p[1], p[2]) : Relatable(O, p[1], p[2], q)}
MayRelate(O, Groups) == {p \in Groups \X Groups : p[1] # p[2] /\ \E q \in BestObjectPairs(O, p[1], p[2]) : Relatable(O, p[1], p[2], q)}
RelateGroups ==
  /\ stage = "merged1" /\ stage' = "related"
  /\ \E extra \in SUBSET (MayRelate(OO, groups) \ MustRelate(OO, groups)) : related' = MustRelate(OO, groups) \cup extra
  /\ UNCHANGED <<obs, objs, groups>>
Sym(R) == R \cup {<<p[2], p[1]>> : p \in R}
MergeGroups ==
  stage = "related" /\ stage' = "onegroup" /\ groups' = MergedGroups(groups, Sym(related)) /\ related' = {} /\ UNCHANGED <<obs, objs>>
CNext == Calibrate3DObjects \/ CalibrateCameraGroups \/ Merge3DObjects("groups", "merged1") \/ RelateGroups
         \/ MergeGroups \/ Merge3DObjects("onegroup", "done")
(* the possible outcomes of a whole calibration: <<objects, groups>> *)
Outcomes(O) ==
  LET o1 == ObjectsOf(O)
      v1 == ObjObsOf(O, o1)
      g1 == GroupsOf(v1)
      o2 == MergedObjects(v1, g1)
      v2 == ObjObsOf(O, o2)
      must == MustRelate(v2, g1)
      free == MayRelate(v2, g1) \ must
      gs == {MergedGroups(g1, Sym(must \cup x)) : x \in SUBSET free}
  IN {<<MergedObjects(v2, g), g>> : g \in gs}
=============================================================================
