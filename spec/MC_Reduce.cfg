CONSTANTS NI = 3 NA = 2 NR = 4 DD = 2
SPECIFICATION Spec
CONSTRAINT ClosedSoFar
INVARIANTS IsFormOK Preserve Sure Again
CHECK_DEADLOCK FALSE
