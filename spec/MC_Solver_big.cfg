SPECIFICATION Spec
CONSTANTS
  NRows = 2
  Rhs = {4}
INVARIANT Exact
CHECK_DEADLOCK FALSE
