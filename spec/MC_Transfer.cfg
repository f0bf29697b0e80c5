SPECIFICATION Spec
CHECK_DEADLOCK FALSE
CONSTANTS
 MaxSteps = 1
 Big = FALSE
INVARIANTS Shapes MassOn MomentumOn SpinOn ForceFree Conserved Reprojected Covered EndsRight
