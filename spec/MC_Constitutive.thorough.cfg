SPECIFICATION Spec
CHECK_DEADLOCK FALSE
CONSTANTS
 Big = TRUE
INVARIANTS Removes Softened OnSurface Viscous KeepsP NoTension Records Grows Idle Stays Inner Friction Granular Settles Limit FlowRule
