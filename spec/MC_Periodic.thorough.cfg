SPECIFICATION Spec
CHECK_DEADLOCK FALSE
CONSTANTS
 Big = TRUE
 MaxSteps = 2
INVARIANTS Copies Traceless SeesArray ForcesOfArray Inside Whole Kept
