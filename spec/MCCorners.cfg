CONSTANTS NC = 1 MaxFiles = 12 What = "corners"
 Percs = {0, 100, 150, 250, 330, 400, 500, 620, 750, 900, 950}
SPECIFICATION Spec
INVARIANTS Emit
CHECK_DEADLOCK FALSE
