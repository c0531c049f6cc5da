CONSTANTS NS = 2  NA = 3
SPECIFICATION Spec
INVARIANTS MecOK SccOK ReachOK
CHECK_DEADLOCK FALSE
