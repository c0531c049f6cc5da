SPECIFICATION Spec
CONSTANTS
  Depth = 4
  Emitting = FALSE
INVARIANT HistoryFree
CHECK_DEADLOCK FALSE
