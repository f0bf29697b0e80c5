SPECIFICATION Spec
CHECK_DEADLOCK FALSE
CONSTANT Big = TRUE
INVARIANTS FrameInStep EndOk StepBounds GravityOk FramesSaved FailedStep RefusedNothing
PROPERTIES NoSilentRefusal OneFrameAtATime TimeMoves OnlyTicks Terminates
