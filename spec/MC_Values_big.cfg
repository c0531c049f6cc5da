CONSTANTS NI = 2 NA = 2 NR = 4 DD = 2 Q = 12 Steps = 4
SPECIFICATION Spec
INVARIANTS AllExact Unique Approach Monotone
CHECK_DEADLOCK FALSE
