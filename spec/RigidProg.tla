----------------------------- MODULE RigidProg -----------------------------
(* A register machine over a group of motions: every step goes through one *)
(* of the representations or stored poses of the real code.  The group is  *)
(* the cube's (Rigid) or that of words over nameless motions (Words).      *)
CONSTANTS Regs, Forms, GrpId, GrpMul(_, _), GrpInv(_)
VARIABLES reg
PInit == reg = [i \in Regs |-> GrpId]
Load(i, m) == reg' = [reg EXCEPT ![i] = m]
Mul(i, j) == reg' = [reg EXCEPT ![i] = GrpMul(reg[i], reg[j])]
Invert(i) == reg' = [reg EXCEPT ![i] = GrpInv(reg[i])]
Via(i, f) == UNCHANGED reg      \* convert to form f and back: nothing changes
Swap(i, j) == reg' = [reg EXCEPT ![i] = reg[j], ![j] = reg[i]]
=============================================================================
