SPECIFICATION Spec
INVARIANT MajorityIsMedian
INVARIANT MedianExists
INVARIANT Out
CHECK_DEADLOCK FALSE
