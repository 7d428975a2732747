SPECIFICATION MCSpec
CONSTANTS Names = {0, 2, 3, 7}
          Weights = {1, 3}
VIEW View
INVARIANT Partition
INVARIANT DistIsMinOverAllPaths
INVARIANT Out
CHECK_DEADLOCK FALSE
