SPECIFICATION Spec
CONSTANT Big = TRUE
INVARIANTS Promise Loss GridFiles None NotAhead AtEnd
PROPERTIES Forward Once Ends
CHECK_DEADLOCK FALSE
