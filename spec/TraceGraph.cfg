SPECIFICATION TSpec
CONSTANTS Names = {}
          Weights = {}
INVARIANT Report
CHECK_DEADLOCK FALSE
