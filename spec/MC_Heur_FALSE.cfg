CONSTANTS Groups = {g1, g2, g3} Iters = 3 Fixing = FALSE
SPECIFICATION Spec
INVARIANTS FeasibleAll InfeasibleOnce Witnesses Shrinks NeverBack Bounded
PROPERTY Ends
CHECK_DEADLOCK FALSE
