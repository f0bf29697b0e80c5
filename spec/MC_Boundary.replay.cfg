SPECIFICATION Still
CHECK_DEADLOCK FALSE
CONSTANTS
 Big = FALSE
INVARIANT Emit
