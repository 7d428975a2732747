---------------------------- MODULE TraceConfig ----------------------------
(* Each line: a configuration and the rig the real constructor built.      *)
EXTENDS Config, TLC, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES l, bad
Diff(want, got) ==
  LET nb == Len(want.boards) IN
  {x \in {"cameras"} : want.cams # got.cams} \cup
  {x \in {"number of boards"} : nb # Len(got.boards)} \cup
  {x \in {"options"} : want.opts # got.opts} \cup
  (IF nb # Len(got.boards) THEN {} ELSE
    UNION {{"board " \o f : f \in {g \in DOMAIN want.boards[i] : want.boards[i][g] # got.boards[i][g]}}
           : i \in 1..nb})
Init == l = 1 /\ bad = {}
Next == /\ l <= Len(Trace)
        /\ l' = l + 1
        /\ bad' = bad \cup {[line |-> l, what |-> w] : w \in Diff(Rig(Trace[l].cfg), Trace[l].rig)}
Spec == Init /\ [][Next]_<<l, bad>>
Report == l = Len(Trace) + 1 => PrintT(<<"DONE", ToJson([n |-> l - 1, bad |-> bad])>>)
=============================================================================
