CONSTANTS NI = 2 NA = 2 NR = 4 DD = 2 W = 4 Top = 5 Q = 12
SPECIFICATION Spec
INVARIANTS Sound CompleteOK Support Converse
CHECK_DEADLOCK FALSE
