SPECIFICATION Spec
CONSTANTS Depth = 9 Iters = {1, 2} Queries = {1, 2} Steps = 3
INVARIANT Emit
CHECK_DEADLOCK FALSE
