SPECIFICATION Spec
CONSTANT Big = FALSE
INVARIANTS Promise Loss GridFiles None NotAhead AtEnd
PROPERTIES Forward Once Ends
CHECK_DEADLOCK FALSE
