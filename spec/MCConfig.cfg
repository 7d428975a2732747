SPECIFICATION Spec
INVARIANT MarkersDisjoint
INVARIANT SelectionIrrelevant
INVARIANT Grid
INVARIANT Out
CHECK_DEADLOCK FALSE
