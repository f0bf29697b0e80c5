SPECIFICATION Still
CHECK_DEADLOCK FALSE
CONSTANTS
 MaxSteps = 1
 Big = TRUE
INVARIANT Emit
