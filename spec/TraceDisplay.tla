---------------------------- MODULE TraceDisplay ----------------------------
(* Judges what the real scripts drew of real results.                      *)
EXTENDS Display, TLC, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES l, bad
Init == l = 1 /\ bad = {}
Next == /\ l <= Len(Trace) /\ l' = l + 1
        /\ bad' = bad \cup {[id |-> Trace[l].id, what |-> w] : w \in Judge(Trace[l])}
Spec == Init /\ [][Next]_<<l, bad>>
Report == l = Len(Trace) + 1 => PrintT(<<"DONE", ToJson([n |-> l - 1, bad |-> bad])>>)
=============================================================================
