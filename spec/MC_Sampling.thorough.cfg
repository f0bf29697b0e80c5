SPECIFICATION Spec
CONSTANT Big = TRUE
INVARIANTS CellVolume Inside Apart NotMore Full
PROPERTY Filled
CHECK_DEADLOCK FALSE
