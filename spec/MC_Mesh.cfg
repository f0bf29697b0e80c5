SPECIFICATION Spec
CONSTANT Big = FALSE
INVARIANTS RegularAxis CoversAll TightAll OneLattice Partition
CHECK_DEADLOCK FALSE
