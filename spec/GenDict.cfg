SPECIFICATION Spec
CONSTANTS Depth = 4 Emitting = TRUE
INVARIANTS Coherent Emit
CHECK_DEADLOCK FALSE
