SPECIFICATION Spec
CHECK_DEADLOCK FALSE
CONSTANTS
 Big = FALSE
 MaxSteps = 1
INVARIANTS Copies Traceless SeesArray ForcesOfArray Inside Whole Kept
