SPECIFICATION Spec
CONSTANTS
 Big = TRUE
 Locked = TRUE
INVARIANTS NoRace InStep Copies Merged Normed Results
PROPERTY Ends
CHECK_DEADLOCK FALSE
