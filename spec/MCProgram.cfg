SPECIFICATION Spec
INVARIANT RefusedLeavesNothing
INVARIANT DoneIsComplete
INVARIANT Ends
INVARIANT Out
CHECK_DEADLOCK FALSE
