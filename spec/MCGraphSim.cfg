SPECIFICATION MCSpec
CONSTANTS Names = {0, 1, 4, 9, 12, 1003}
          Weights = {1, 2, 3, 6, 12, 20, 70}
INVARIANT SimOut
CHECK_DEADLOCK FALSE
