---------------------------- MODULE TraceRigid ----------------------------
(* Each line: a step the real code executed, and what the registers hold   *)
(* in the forms it can be read back in, as integers (see checks/c_geom.py).*)
EXTENDS Rigid, RigidProg, TLC, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES l, bad
Ev == Trace[l]
M(j) == [r |-> j[1], t |-> j[2]]
Is(op) == l <= Len(Trace) /\ Ev.op = op /\ l' = l + 1
Judge == bad' = bad \cup
   {[line |-> l, what |-> w] : w \in
     {"reads back differently as " \o k : k \in {q \in DOMAIN Ev.got : M(Ev.got[q]) # reg'[Ev.i]}}
     \cup {x \in {"another stored pose was changed"} : Ev.other # <<>> /\ M(Ev.other) # reg[IF Ev.i = 1 THEN 2 ELSE 1]}
     \cup {x \in {"points moved wrongly"} : Ev.pts # [n \in 1..Len(Ev.pin) |-> Apply(reg'[Ev.i], Ev.pin[n])]}}
TInit == PInit /\ l = 1 /\ bad = {}
TReset == Is("reset") /\ reg' = [i \in Regs |-> IdMotion] /\ UNCHANGED bad
TLoad == Is("load") /\ Load(Ev.i, M(Ev.m)) /\ Judge
TMul == Is("mul") /\ Mul(Ev.i, Ev.j) /\ Judge
TInv == Is("inv") /\ Invert(Ev.i) /\ Judge
TVia == Is("via") /\ Via(Ev.i, Ev.f) /\ Judge
TSwap == Is("swap") /\ Swap(Ev.i, Ev.j) /\ Judge
TNext == TReset \/ TLoad \/ TMul \/ TInv \/ TVia \/ TSwap
TSpec == TInit /\ [][TNext]_<<reg, l, bad>>
Report == l = Len(Trace) + 1 => PrintT(<<"DONE", ToJson([n |-> l - 1, bad |-> bad])>>)
=============================================================================
