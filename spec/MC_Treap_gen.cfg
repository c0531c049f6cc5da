SPECIFICATION Spec
CONSTANTS
  K = 5
  Prios = 1
  Depth = 5
  Emitting = TRUE
INVARIANTS Emit
CHECK_DEADLOCK FALSE
