CONSTANTS NC = 2 NI = 2 NB = 2 Threads = {t1, t2, t3} Locked = TRUE
 Accepted <- Some
SPECIFICATION DSpec
INVARIANTS Complete Numbered Consistent Exclusive
PROPERTY Terminates
CHECK_DEADLOCK FALSE
