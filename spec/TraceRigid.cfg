SPECIFICATION TSpec
CONSTANTS Regs = {1, 2, 3}
          Forms = {}
          GrpId <- IdMotion
          GrpMul <- Comp
          GrpInv <- Inv
INVARIANT Report
CHECK_DEADLOCK FALSE
