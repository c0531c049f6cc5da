SPECIFICATION Spec
CONSTANTS
  Depth = 5
  Emitting = TRUE
INVARIANT Emit
CHECK_DEADLOCK FALSE
