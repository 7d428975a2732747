------------------------------ MODULE MCCalib ------------------------------
(***************************************************************************)
(* Who sees what, enumerated (MODE = all) or drawn at random, each history *)
(* run through the workflow machine of Calib.  Checks that the workflow    *)
(* has the guarantees the properties promise, and prints the scenarios     *)
(* that are then run on the real program.                                  *)
(*   MODE all    every set of observations                                 *)
(*        random K random sets of N observations                           *)
(*        single K random scenarios with at most one board per image       *)
(*        cams, boards, objects: K random numbers of joint views of every  *)
(*               two cameras, boards or objects (up to N)                  *)
(*        merging K random objects whose boards interleave, seen by one    *)
(*               group of cameras                                          *)
(*        longcams, longboards, longobjects: K random sparse forests of    *)
(*               many cameras, boards or objects, with up to N joint views *)
(*        apart  K random rigs of cameras with boards of their own, seeing *)
(*               their boards at the same time now and then                *)
(***************************************************************************)
EXTENDS Calib, Json, IOUtils, Randomization
MinCommonHere == IF "MINCOMMON" \in DOMAIN IOEnv THEN atoi(IOEnv.MINCOMMON) ELSE 4
Mode == IOEnv.MODE
NC == atoi(IOEnv.NC)
NF == atoi(IOEnv.NF)
NB == atoi(IOEnv.NB)
K == atoi(IOEnv.K)
N == atoi(IOEnv.N)
EmitAt == IOEnv.EMIT
Cams == 0..NC - 1
Frames == 0..NF - 1
Bds == 0..NB - 1
All == [c : Cams, f : Frames, b : Bds]
One(h) == {[c |-> i[1], f |-> i[2], b |-> h[i] - 1] : i \in {j \in DOMAIN h : h[j] > 0}}
\* every pair [p] of things has h[p] frames of its own, counted from frame F0
Before(p, q) == p[1] < q[1] \/ (p[1] = q[1] /\ p[2] < q[2])
RECURSIVE Total(_, _)
Total(h, S) == IF S = {} THEN 0 ELSE LET p == CHOOSE x \in S : TRUE IN h[p] + Total(h, S \ {p})
Spread(h, F0, See(_, _)) ==
  UNION {UNION {See(p, F0 + Total(h, {q \in DOMAIN h : Before(q, p)}) + k) : k \in 0..h[p] - 1} : p \in DOMAIN h}
Two(S) == {p \in S \X S : p[1] < p[2]}
SeeCams(p, f) == {[c |-> p[1], f |-> f, b |-> 0], [c |-> p[2], f |-> f, b |-> 0]}
SeeBoards(p, f) == {[c |-> f % NC, f |-> f, b |-> p[1]], [c |-> f % NC, f |-> f, b |-> p[2]]}
SeeObjects(p, f) == {[c |-> f % 2, f |-> f, b |-> p[1]], [c |-> 1 - (f % 2), f |-> f, b |-> p[2]]}
Together(F) == {[c |-> c, f |-> f, b |-> 0] : c \in {0, 1}, f \in F}
\* h: the object of a board, v: the object an image shows (0: none); all cameras see the first object in frame 0
Merging(h, v) == {o \in All : IF o.f = 0 THEN h[o.b] = h[0] ELSE v[<<o.c, o.f>>] = h[o.b]}
\* g: the rig of a camera, h: the rig of a board, v: the rigs that work in a frame
Apart(g, h, v) == {o \in All : h[o.b] = g[o.c] /\ g[o.c] \in v[o.f]}
\* a forest over the things 0..n-1 in scrambled order with some chords; h[i]: how far back and how often
Scramble(n, m, i) == (m * i + m) % n
Forest(n, m, h) == [p \in {<<x, y>> \in (0..n - 1) \X (0..n - 1) : x < y} |->
  MapThenSumSet(LAMBDA i : LET q == {Scramble(n, m, i), Scramble(n, m, Max({0, i - h[i].far}))}
                               r == {Scramble(n, m, i), Scramble(n, m, Max({0, i - 3}))} IN
                           (IF q = {p[1], p[2]} THEN h[i].often ELSE 0) + (IF r = {p[1], p[2]} /\ h[i].chord THEN 1 ELSE 0), 1..n - 1)]
Forests(n) == {Forest(n, m, h) : m \in {2, n - 2},
                 h \in RandomSubset(K \div 2, [1..n - 1 -> [far : {1, 2}, often : (IF K % 2 = 0 THEN 1 ELSE 0)..N, chord : {TRUE, FALSE, FALSE}]])}
Patterns == CASE Mode = "all" -> SUBSET All
              [] Mode = "random" -> RandomSetOfSubsets(K, N, All)
              [] Mode = "single" -> {One(h) : h \in RandomSubset(K, [Cams \X Frames -> 0..NB])}
              [] Mode = "cams" -> {Spread(h, 0, SeeCams) : h \in RandomSubset(K, [Two(Cams) -> 0..N])}
              [] Mode = "boards" -> {Spread(h, 0, SeeBoards) : h \in RandomSubset(K, [Two(Bds) -> 0..N])}
              [] Mode = "objects" -> {Together({0, 1}) \cup Spread(h, 2, SeeObjects) : h \in RandomSubset(K, [Two(Bds) -> 0..N])}
              [] Mode = "longcams" -> {Spread(h, 0, SeeCams) : h \in Forests(NC)}
              [] Mode = "longboards" -> {Spread(h, 0, SeeBoards) : h \in Forests(NB)}
              [] Mode = "longobjects" -> {Together({0, 1}) \cup Spread(h, 2, SeeObjects) : h \in Forests(NB)}
              [] Mode = "merging" -> {Merging(h, v) : h \in RandomSubset(20, [Bds -> 1..3]), v \in RandomSubset(K \div 20, [Cams \X (Frames \ {0}) -> 0..3])}
              [] Mode = "apart" -> {Apart(g, h, v) : g \in RandomSubset(6, [Cams -> 1..3]), h \in RandomSubset(10, [Bds -> 1..3]),
                                    v \in RandomSubset(K \div 60, [Frames -> SUBSET (1..3)])}
MCInit == \E O \in Patterns \ {{}} : CInit(O)
MCSpec == MCInit /\ [][CNext]_cvars

(* ------------------------------------------------- what the model grants *)
Reached(s) == \* stages in order
  LET order == <<"start", "objects", "groups", "merged1", "related", "onegroup", "done">>
      at(x) == CHOOSE i \in 1..7 : order[i] = x
  IN at(stage) >= at(s)
IsPartition(P, V) == UNION P = V /\ {} \notin P /\ \A x, y \in P : x # y => x \cap y = {}
ObjectsPartition == Reached("objects") => IsPartition(objs, BoardsOf(obs))
GroupsPartition == Reached("groups") => IsPartition(groups, CamerasOf(obs))
\* boards of one image are one object, and an object is held together by images
ImagesInOneObject == Reached("objects") =>
  \A i \in ImagesOf(obs) : \E o \in objs : {x.b : x \in {y \in obs : y.c = i[1] /\ y.f = i[2]}} \subseteq o
ObjectsAreConnected == stage = "objects" =>
  \A o \in objs : \A S \in SUBSET o : S # {} /\ S # o =>
    \E i \in ImagesOf(obs) : LET B == {x.b : x \in {y \in obs : y.c = i[1] /\ y.f = i[2]}} IN B \cap S # {} /\ B \cap (o \ S) # {}
SharedViewsInOneGroup == Reached("groups") /\ ~Reached("merged1") =>
  \A x, y \in OO : x.f = y.f /\ x.o = y.o => \E g \in groups : {x.c, y.c} \subseteq g
GroupsAreConnected == stage = "groups" =>
  \A g \in groups : \A S \in SUBSET g : S # {} /\ S # g =>
    \E x, y \in OO : x.f = y.f /\ x.o = y.o /\ x.c \in S /\ y.c \in g \ S
\* objects one group sees in one frame are merged
SeenTogetherMerged == stage \in {"merged1", "related", "done"} =>
  \A g \in groups : \A f \in FramesOf(obs) : Cardinality({x.o : x \in Seen(OO, g, f)}) <= 1
\* merging again changes nothing
MergeIdempotent == stage \in {"merged1", "done"} => MergedObjects(OO, groups) = objs
\* nothing is ever split
Coarser(P, Q) == \A x \in P : \E y \in Q : x \subseteq y
NeverSplit == [][(objs = {} \/ Coarser(objs, objs')) /\ (groups = {} \/ Coarser(groups, groups'))]_cvars
OutcomesAgree == stage = "done" => <<objs, groups>> \in Outcomes(obs)
BestPathsExist == stage = "objects" =>
  LET n == JointBoards(obs) IN \A o \in objs : \A b \in o : BestPaths(BoardsOf(obs), EdgesFrom(n), Min(o), b) # {}

(* ----------------------------------------------------------- scenarios *)
ScenarioOf(First, FirstOO, FirstGroups) ==
  [obs |-> obs, objs |-> objs, groups |-> groups,
   feat |-> <<Cardinality(First), Max({Cardinality(o) : o \in First}), Cardinality(FirstGroups), Cardinality(objs), Cardinality(groups),
              \* a longer path is better, several paths are equally good
              LET n == JointBoards(obs) IN
                Max({0} \cup UNION {{Min({Len(p) : p \in BestPaths(BoardsOf(obs), EdgesFrom(n), Min(o), b)}) : b \in o} : o \in First}),
              LET m == JointCams(FirstOO) IN
                Max({0} \cup UNION {{Min({Len(p) : p \in BestPaths(CamerasOf(obs), EdgesFrom(m), Min(g), c)}) : c \in g} : g \in FirstGroups}),
              \* a detour is better than the direct link
              LET n == JointBoards(obs) IN
                \E o \in First : \E b \in o \ {Min(o)} : n[<<Min(o), b>>] > 0 /\ <<Min(o), b>> \notin BestPaths(BoardsOf(obs), EdgesFrom(n), Min(o), b),
              LET m == JointCams(FirstOO) IN
                \E g \in FirstGroups : \E c \in g \ {Min(g)} : m[<<Min(g), c>>] > 0 /\ <<Min(g), c>> \notin BestPaths(CamerasOf(obs), EdgesFrom(m), Min(g), c),
              LET id == [i \in {Min(o) : o \in First} |-> CHOOSE o \in First : Min(o) = i]
                  n == JointObjs(FirstOO, FirstGroups, id) IN
                Max({0} \cup UNION {LET home(b) == Min(CHOOSE x \in First : b \in x) IN
                       {IF P = {} THEN 0 ELSE Min({Len(p) : p \in P}) : P \in {BestPaths(DOMAIN id, EdgesFrom(n), home(Min(o)), home(b)) : b \in o}} : o \in objs}),
              \* merged objects whose boards lie in between each other
              \E o \in objs : \E x, y \in First : x # y /\ x \cup y \subseteq o /\ \E b \in x : Min(y) < b /\ b < Max(y),
              \* an object the reference camera of its group does not see
              \E g \in FirstGroups : \E x \in FirstOO : x.c \in g /\ [c |-> Min(g), f |-> x.f, o |-> x.o] \notin FirstOO>>]
\* (bound to variables so that TLC evaluates them once)
Scenario == CHOOSE z \in UNION {UNION {{ScenarioOf(F, V, G) : G \in {GroupsOf(V)}} : V \in {ObjObsOf(obs, F)}} : F \in {ObjectsOf(obs)}} : TRUE
Out == (EmitAt # "" /\ stage = EmitAt) => PrintT(<<"SC", ToJson(Scenario)>>)
=============================================================================
