SPECIFICATION Still
CHECK_DEADLOCK FALSE
CONSTANTS
 Big = TRUE
INVARIANT Emit
