SPECIFICATION Spec
CONSTANT Big = FALSE
INVARIANTS AtVoxels PlaneOk Between UnitNormal Determined
PROPERTIES Continuous Uphill
CHECK_DEADLOCK FALSE
