CONSTANTS NI = 2 NA = 2 NR = 3 DD = 2 W = 4 Top = 6 Q = 12
SPECIFICATION Spec
INVARIANTS Sound CompleteOK Support Converse
CHECK_DEADLOCK FALSE
