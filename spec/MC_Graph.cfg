CONSTANTS NS = 3  NA = 1
SPECIFICATION Spec
INVARIANTS MecOK SccOK ReachOK
CHECK_DEADLOCK FALSE
