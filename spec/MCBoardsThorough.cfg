CONSTANTS Shapes = {"a", "b", "d", "c"} MaxBoards = 4
SPECIFICATION Spec
INVARIANTS Disjoint Contiguous CornersHavePlaces NotAllOnALine RowsAreLines Emit
CHECK_DEADLOCK FALSE
