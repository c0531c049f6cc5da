SPECIFICATION Spec
CONSTANTS Depth = 7 Iters = {1, 2} Queries = {1, 2} Steps = 3
INVARIANT Emit
CHECK_DEADLOCK FALSE
