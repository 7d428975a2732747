------------------------------- MODULE Graph -------------------------------
(***************************************************************************)
(* The co-visibility graph as an object with a history of insertions.      *)
(***************************************************************************)
EXTENDS GraphOps
CONSTANTS Names, Weights
VARIABLES verts, edges
gvars == <<verts, edges>>

GInit == verts = {} /\ edges = {}
AddVertex(v) == verts' = verts \cup {v} /\ UNCHANGED edges
AddEdge(a, b, w) == /\ verts' = verts \cup {a, b}
                    /\ edges' = edges \cup {[a |-> a, b |-> b, w |-> w]}
Clear == verts' = {} /\ edges' = {}

(* what the queries answer, in any representation of the same graph *)
ComponentsAnswer(res) == \* res: sequence of sequences of vertices
  /\ {{c[i] : i \in 1..Len(c)} : c \in {res[i] : i \in 1..Len(res)}} = Components(verts, edges)
  /\ Len(res) = Cardinality(Components(verts, edges))
  /\ \A i \in 1..Len(res) : Cardinality({res[i][j] : j \in 1..Len(res[i])}) = Len(res[i])
PathAnswer(d, s, t, res) == IsBestPath(verts, edges, d, res, s, t)
=============================================================================
