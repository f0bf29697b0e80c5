SPECIFICATION Spec
CONSTANT Big = TRUE
INVARIANTS AtVoxels PlaneOk Between UnitNormal Determined
PROPERTIES Continuous Uphill
CHECK_DEADLOCK FALSE
