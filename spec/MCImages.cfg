CONSTANTS NC = 2 MaxFiles = 8 What = "files"
 Percs = {100, 400, 500}
SPECIFICATION Spec
INVARIANTS Emit
CHECK_DEADLOCK FALSE
