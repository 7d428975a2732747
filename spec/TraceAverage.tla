---------------------------- MODULE TraceAverage ----------------------------
(* Each line: a sequence of measurements, the mode, and the real average;  *)
(* got2 are its components in halves of the unit ("?" if not such a        *)
(* multiple); got names the value it equals (0 if none); cls numbers the   *)
(* class of numerically equal results.                                     *)
EXTENDS Average, TLC, Json, IOUtils, SequencesExt
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES l, bad, seen
Ev == Trace[l]
Bag(s) == {<<m, LET Is(x) == x = m IN Count(s, Is)>> : m \in ToSet(s)}
Key == <<Bag(Ev.s), Ev.mode, Ev.trans>>
Med(ks) == \A k \in ks : Ev.ok[k] => MedianOf(Ev.s, k, Ev.got2[k])
AllOk(ks) == \A k \in ks : Ev.ok[k]
Wrong ==
  {x \in {"agreeing measurements"} : Same(Ev.s) /\ ~(AllOk(1..6) /\ \A k \in 1..6 : Ev.got2[k] = 2 * Ev.s[1][k])} \cup
  {x \in {"translation is not a median"} : Ev.trans /\ ~(AllOk(4..6) /\ Med(4..6))} \cup
  {x \in {"rotation is not a median"} : Ev.mode = "median" /\ ~(AllOk(1..3) /\ Med(1..3))} \cup
  {x \in {"symmetric rotations"} : Ev.mode = "quaternion" /\ Ev.kind # "generic" /\
     \E a2 \in {2 * m[1] : m \in ToSet(Ev.s)} \cup {m[1] + n[1] : m \in ToSet(Ev.s), n \in ToSet(Ev.s)} :
        SymmetricAbout(Ev.s, a2) /\ ~(AllOk(1..3) /\ Ev.got2[1] = a2 /\ Ev.got2[2] = 0 /\ Ev.got2[3] = 0)} \cup
  {x \in {"depends on order or representation"} : \E c \in seen : c[1] = Key /\ c[2] # Ev.cls}
Init == l = 1 /\ bad = {} /\ seen = {}
Next == /\ l <= Len(Trace) /\ l' = l + 1
        /\ bad' = bad \cup {[line |-> l, what |-> w] : w \in Wrong}
        /\ seen' = IF l < Len(Trace) /\ Trace[l + 1].group # Ev.group THEN {} ELSE seen \cup {<<Key, Ev.cls>>}
Spec == Init /\ [][Next]_<<l, bad, seen>>
Report == l = Len(Trace) + 1 => PrintT(<<"DONE", ToJson([n |-> l - 1, bad |-> bad])>>)
=============================================================================
