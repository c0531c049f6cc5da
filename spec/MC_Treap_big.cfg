SPECIFICATION Spec
CONSTANTS
  K = 5
  Prios = 4
  Depth = 6
  Emitting = FALSE
INVARIANTS IsSet Shape
CHECK_DEADLOCK FALSE
