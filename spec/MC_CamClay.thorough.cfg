SPECIFICATION Spec
CHECK_DEADLOCK FALSE
CONSTANTS
 Big = TRUE
INVARIANTS Solvable Sharp Surface Outside Removes Dissipates Hardens Records Idle Stays Inner Limit
