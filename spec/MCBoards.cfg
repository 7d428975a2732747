CONSTANTS Shapes = {"a", "b", "d"} MaxBoards = 3
SPECIFICATION Spec
INVARIANTS Disjoint Contiguous CornersHavePlaces NotAllOnALine RowsAreLines Emit
CHECK_DEADLOCK FALSE
