SPECIFICATION Spec
CONSTANTS
  K = 4
  Prios = 3
  Depth = 5
  Emitting = FALSE
INVARIANTS IsSet Shape
CHECK_DEADLOCK FALSE
