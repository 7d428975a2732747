----------------------------- MODULE TraceGraph -----------------------------
(* Validates recorded runs of the real graph class against Graph.          *)
EXTENDS Graph, TLC, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES l, bad
tvars == <<gvars, l, bad>>
Ev == Trace[l]
Is(op) == l <= Len(Trace) /\ Trace[l].op = op /\ l' = l + 1
TInit == GInit /\ l = 1 /\ bad = {}
TReset == Is("reset") /\ verts' = {} /\ edges' = {} /\ UNCHANGED bad
TV == Is("v") /\ AddVertex(Ev.a) /\ UNCHANGED bad
TE == Is("e") /\ AddEdge(Ev.a, Ev.b, Ev.w) /\ UNCHANGED bad
TC == Is("c") /\ Clear /\ UNCHANGED bad
Fail(name) == {[line |-> l, what |-> name]}
TQ == /\ Is("q")
      /\ UNCHANGED gvars
      /\ bad' = bad \cup
           (IF ComponentsAnswer(Ev.comps) THEN {} ELSE Fail("components")) \cup
           UNION {LET s == Ev.ids[i]
                      d == IF s \in verts THEN DistFrom(verts, edges, s) ELSE [v \in {} |-> 0]
                  IN UNION {LET q == Ev.paths[i][j]
                            IN IF PathAnswer(d, s, Ev.ids[j], q) THEN {} ELSE Fail("path")
                            : j \in 1..Len(Ev.ids)}
                  : i \in 1..Len(Ev.ids)}
THang == Is("hang") /\ UNCHANGED gvars /\ bad' = bad \cup Fail("query does not return")
TNext == TReset \/ TV \/ TE \/ TC \/ TQ \/ THang
TSpec == TInit /\ [][TNext]_tvars
Report == l = Len(Trace) + 1 => PrintT(<<"DONE", ToJson([n |-> l - 1, bad |-> bad])>>)
=============================================================================
