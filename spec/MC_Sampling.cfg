SPECIFICATION Spec
CONSTANT Big = FALSE
INVARIANTS CellVolume Inside Apart NotMore Full
PROPERTY Filled
CHECK_DEADLOCK FALSE
