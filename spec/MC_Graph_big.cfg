CONSTANTS NS = 3  NA = 2
SPECIFICATION Spec
INVARIANTS MecOK SccOK ReachOK
CHECK_DEADLOCK FALSE
