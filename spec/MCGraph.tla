------------------------------ MODULE MCGraph ------------------------------
(* Exhaustive check of the graph specification itself, and generator of    *)
(* insertion histories (one per reachable graph, or random ones).          *)
EXTENDS Graph, TLC, Json, IOUtils
VARIABLES hist, cleared
MCInit == GInit /\ hist = <<>> /\ cleared = FALSE
MaxOps == atoi(IOEnv.MAXOPS)
Parallel == IOEnv.PARALLEL = "1"
Emit == IOEnv.EMIT = "1"
MCNext ==
  /\ Len(hist) < MaxOps
  /\ \/ \E v \in Names : AddVertex(v) /\ hist' = Append(hist, <<"v", v>>) /\ UNCHANGED cleared
     \/ \E a, b \in Names, w \in Weights :
          /\ (Parallel \/ (a < b /\ ~Linked(edges, a, b)))
          /\ AddEdge(a, b, w) /\ hist' = Append(hist, <<"e", a, b, w>>) /\ UNCHANGED cleared
     \/ /\ Parallel /\ ~cleared /\ Len(hist) > 3 /\ Clear
        /\ hist' = Append(hist, <<"c">>) /\ cleared' = TRUE
MCSpec == MCInit /\ [][MCNext]_<<gvars, hist, cleared>>
View == gvars
(* --- meta properties of the specification --- *)
Comp == Components(verts, edges)
Partition == UNION Comp = verts /\ \A c, d \in Comp : c # d => c \cap d = {}
RECURSIVE SimplePaths(_, _, _)
SimplePaths(s, t, seen) == IF s = t THEN {<<t>>}
  ELSE UNION {{<<s>> \o p : p \in SimplePaths(u, t, seen \cup {u})} :
              u \in {x \in verts \ seen : Linked(edges, s, x)}}
DistIsMinOverAllPaths ==
  \A s \in verts : LET d == DistFrom(verts, edges, s) IN
    \A t \in verts : LET P == SimplePaths(s, t, {s}) IN
      /\ (P = {}) = (d[t] >= Inf)
      /\ P # {} => d[t] = Min({PathWeight(edges, p) : p \in P})
      /\ (P = {}) = (\A c \in Comp : ~{s, t} \subseteq c)
      /\ BestPaths(verts, edges, s, t) = {p \in P : PathWeight(edges, p) = d[t]}
Out == Emit => PrintT(<<"HIST", ToJson(hist)>>)
SimOut == (Emit /\ Len(hist) = MaxOps) => PrintT(<<"HIST", ToJson(hist)>>)
=============================================================================
