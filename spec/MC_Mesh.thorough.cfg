SPECIFICATION Spec
CONSTANT Big = TRUE
INVARIANTS RegularAxis CoversAll TightAll OneLattice Partition
CHECK_DEADLOCK FALSE
