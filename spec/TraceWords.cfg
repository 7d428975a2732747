SPECIFICATION TSpec
CONSTANTS Regs = {1, 2, 3}
          Forms = {}
          GrpId <- Empty
          GrpMul <- Join
          GrpInv <- Back
INVARIANT Report
CHECK_DEADLOCK FALSE
