------------------------------ MODULE MCRigid ------------------------------
EXTENDS Rigid, RigidProg, TLC, Json, IOUtils, FiniteSetsExt, Randomization
VARIABLES hist
Trans == {<<x, y, z>> : x \in -1..2, y \in {0, 3}, z \in {-2, 1}}
MaxOps == atoi(IOEnv.MAXOPS)
Small(m) == \A i \in Idx : m.t[i] \in -40..40
vars == <<reg, hist>>
Init == PInit /\ hist = <<>>
H(e) == hist' = Append(hist, e)
Next == /\ Len(hist) < MaxOps
        /\ \/ \E i \in Regs : LET m == [r |-> RandomElement(CubeRotations), t |-> RandomElement(Trans)]
                              IN Load(i, m) /\ H([op |-> "load", i |-> i, m |-> m])
           \/ \E i, j \in Regs : Mul(i, j) /\ H([op |-> "mul", i |-> i, j |-> j])
           \/ \E i \in Regs, k \in 1..2 : Invert(i) /\ H([op |-> "inv", i |-> i, k |-> k])
           \/ \E i \in Regs, f \in Forms : Via(i, f) /\ H([op |-> "via", i |-> i, f |-> f])
           \/ \E i, j \in Regs : i < j /\ Swap(i, j) /\ H([op |-> "swap", i |-> i, j |-> j])
        /\ \A i \in Regs : Small(reg'[i])
Spec == Init /\ [][Next]_vars
Out == Len(hist) = MaxOps => PrintT(<<"PROG", ToJson(hist)>>)
(* --- exhaustive laws, checked once over the whole group --- *)
CONSTANT T0
TZero == {<<0, 0, 0>>, <<1, -2, 3>>, <<2, 0, 5>>}
G == {[r |-> m, t |-> t] : m \in CubeRotations, t \in T0}
ASSUME Cardinality(CubeRotations) = 24
Laws == \A a \in G : /\ Inv(Inv(a)) = a /\ Comp(a, Inv(a)) = IdMotion /\ Comp(Inv(a), a) = IdMotion
                     /\ \A b \in G : /\ Inv(Comp(a, b)) = Comp(Inv(b), Inv(a))
                                     /\ \A p \in T0 : Apply(Comp(a, b), p) = Apply(a, Apply(b, p))
ASSUME Laws
ASSUME PrintT(<<"ELEMS", ToJson([rot |-> CubeRotations])>>)
=============================================================================
