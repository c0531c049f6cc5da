SPECIFICATION Spec
CONSTANTS
  NRows = 1
  Rhs = {0, 4}
INVARIANT Exact
CHECK_DEADLOCK FALSE
