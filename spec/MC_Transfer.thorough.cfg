SPECIFICATION Spec
CHECK_DEADLOCK FALSE
CONSTANTS
 MaxSteps = 1
 Big = TRUE
INVARIANTS Shapes MassOn MomentumOn SpinOn ForceFree Conserved Reprojected Covered EndsRight
