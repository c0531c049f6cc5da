CONSTANTS NI = 3 NA = 2 NR = 4 DD = 2
SPECIFICATION Spec
INVARIANTS Emit
CHECK_DEADLOCK FALSE
