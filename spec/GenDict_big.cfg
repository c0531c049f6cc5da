SPECIFICATION Spec
CONSTANTS Depth = 5 Emitting = TRUE
INVARIANTS Coherent Emit
CHECK_DEADLOCK FALSE
