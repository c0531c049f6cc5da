CONSTANTS NI = 2 NA = 2 NR = 3 DD = 2
SPECIFICATION Spec
INVARIANTS InducedOK Trim LabelMono
CHECK_DEADLOCK FALSE
