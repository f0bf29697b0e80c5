SPECIFICATION Spec
CHECK_DEADLOCK FALSE
CONSTANTS
 Big = FALSE
INVARIANTS Free Held NoEntry Stuck Leaves Dissipates Along Limited UnitOut Moved
PROPERTIES Settled
