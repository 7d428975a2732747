CONSTANTS NC = 2 NF = 2 NB = 2 MaxObs = 2
 Corners = {"two", "one"}
 PathKinds = {"a", "b"}
 PointKinds = {"x"}
 SizeKinds = {"s", "t"}
SPECIFICATION Spec
VIEW View
INVARIANTS RoundTrip SameFile FilesAreProper AllOnce
CHECK_DEADLOCK FALSE
