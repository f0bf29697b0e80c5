SPECIFICATION Spec
CONSTANTS
 Big = FALSE
 Locked = TRUE
INVARIANTS NoRace InStep Copies Merged Normed Results
PROPERTY Ends
CHECK_DEADLOCK FALSE
