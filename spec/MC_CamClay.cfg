SPECIFICATION Spec
CHECK_DEADLOCK FALSE
CONSTANTS
 Big = FALSE
INVARIANTS Solvable Sharp Surface Outside Removes Dissipates Hardens Records Idle Stays Inner Limit
