SPECIFICATION Spec
CHECK_DEADLOCK FALSE
CONSTANTS
 Big = TRUE
INVARIANTS Free Held NoEntry Stuck Leaves Dissipates Along Limited UnitOut Moved
PROPERTIES Settled
