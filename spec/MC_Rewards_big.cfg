CONSTANTS NI = 2 NA = 2 NR = 4 DD = 2 Q = 12 Top = 4 W = 2
 RewSet <- RewQuick
SPECIFICATION Spec
INVARIANTS Unique Monotone Support Attained
CHECK_DEADLOCK FALSE
