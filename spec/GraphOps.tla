------------------------------ MODULE GraphOps ------------------------------
(***************************************************************************)
(* Undirected weighted graphs: components and best paths.  A graph is a    *)
(* set of vertices V and a set E of edges [a, b, w]; several edges may     *)
(* join the same two vertices.  Weights are positive integers.             *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, FiniteSetsExt

Inf == 1000000000

Joins(e, x, y) == (e.a = x /\ e.b = y) \/ (e.a = y /\ e.b = x)
EdgesOf(E, x, y) == {e \in E : Joins(e, x, y)}
Linked(E, x, y) == \E e \in E : Joins(e, x, y)
Weight(E, x, y) == LET S == {e.w : e \in EdgesOf(E, x, y)}
                   IN IF S = {} THEN Inf ELSE Min(S)

RECURSIVE Reach(_, _)
Reach(S, E) == LET N == S \cup {e.a : e \in {f \in E : f.b \in S}}
                          \cup {e.b : e \in {f \in E : f.a \in S}}
               IN IF N = S THEN S ELSE Reach(N, E)

Component(E, x) == Reach({x}, E)
Components(V, E) == {Component(E, x) : x \in V}

(* all distances from s: relaxation to the fixed point *)
RECURSIVE Relax(_, _, _)
Relax(V, E, d) ==
  LET n == [v \in V |-> Min({d[v]} \cup
             {d[e.a] + e.w : e \in {f \in E : f.b = v /\ d[f.a] < Inf}} \cup
             {d[e.b] + e.w : e \in {f \in E : f.a = v /\ d[f.b] < Inf}})]
  IN IF n = d THEN d ELSE Relax(V, E, n)
DistFrom(V, E, s) == Relax(V, E, [v \in V |-> IF v = s THEN 0 ELSE Inf])

RECURSIVE PathWeight(_, _)
PathWeight(E, p) == IF Len(p) < 2 THEN 0
                    ELSE Weight(E, p[1], p[2]) + PathWeight(E, Tail(p))
IsWalk(E, p) == \A i \in 1..Len(p) - 1 : Linked(E, p[i], p[i + 1])
IsPath(E, p, s, t) == Len(p) > 0 /\ p[1] = s /\ p[Len(p)] = t /\ IsWalk(E, p)

(* the answer to a path query; d are the distances from s *)
IsBestPath(V, E, d, p, s, t) ==
  IF s \notin V \/ t \notin V THEN p = <<>>
  ELSE IF d[t] >= Inf THEN p = <<>>
  ELSE IsPath(E, p, s, t) /\ PathWeight(E, p) = d[t]

(* every best path from s to t (simple by construction: weights > 0) *)
RECURSIVE BestPathsTo(_, _, _, _)
BestPathsTo(V, E, d, t) ==
  IF d[t] = 0 THEN {<<t>>}
  ELSE UNION {{Append(p, t) : p \in BestPathsTo(V, E, d, u)} :
              u \in {x \in V : Linked(E, x, t) /\ d[x] < Inf /\ d[x] + Weight(E, x, t) = d[t]}}
BestPaths(V, E, s, t) ==
  LET d == DistFrom(V, E, s) IN IF d[t] >= Inf THEN {} ELSE BestPathsTo(V, E, d, t)
=============================================================================
