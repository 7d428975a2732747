------------------------------ MODULE MCWords ------------------------------
EXTENDS Words, RigidProg, TLC, Json, IOUtils, FiniteSets, Randomization
VARIABLES hist
MaxOps == atoi(IOEnv.MAXOPS)
MaxWord == 4
Gens == 3
vars == <<reg, hist>>
Init == PInit /\ hist = <<>>
H(e) == hist' = Append(hist, e)
Next == /\ Len(hist) < MaxOps
        /\ \/ \E i \in Regs : LET g == RandomElement(1..Gens) IN Load(i, <<g>>) /\ H([op |-> "load", i |-> i, g |-> g])
           \/ \E i, j \in Regs : Mul(i, j) /\ H([op |-> "mul", i |-> i, j |-> j])
           \/ \E i \in Regs, k \in 1..2 : Invert(i) /\ H([op |-> "inv", i |-> i, k |-> k])
           \/ \E i \in Regs, f \in Forms : Via(i, f) /\ H([op |-> "via", i |-> i, f |-> f])
           \/ \E i, j \in Regs : i < j /\ Swap(i, j) /\ H([op |-> "swap", i |-> i, j |-> j])
        /\ \A i \in Regs : Len(reg'[i]) <= MaxWord
Spec == Init /\ [][Next]_vars
AllReduced == \A i \in Regs : Reduced(reg[i])
Out == Len(hist) = MaxOps => PrintT(<<"PROG", ToJson(hist)>>)
(* the laws of a group, over all short words *)
Short == {<<>>} \cup {<<a>> : a \in Letters(2)} \cup {w \in {<<a, b>> : a \in Letters(2), b \in Letters(2)} : Reduced(w)}
ASSUME \A a, b \in Short :
  /\ Back(Back(a)) = a /\ Join(a, Back(a)) = <<>> /\ Join(Back(a), a) = <<>>
  /\ Back(Join(a, b)) = Join(Back(b), Back(a))
  /\ \A c \in Short : Join(Join(a, b), c) = Join(a, Join(b, c))
=============================================================================
