CONSTANTS NC = 3 NF = 7 NB = 3 MaxObs = 9
 Corners = {"all", "some", "few", "reversed", "one", "none"}
 PathKinds = {"plain", "space", "quote", "apostrophe", "colon", "hash", "unicode", "percent", "backslash", "brackets", "braces", "comma", "number", "long", "deep", "dash", "dots"}
 PointKinds = {"real", "whole", "half", "tiny", "big", "negative", "border"}
 SizeKinds = {"small", "wide", "tall", "odd"}
SPECIFICATION SimSpec
INVARIANTS RoundTrip AllOnce Emit
CHECK_DEADLOCK FALSE
