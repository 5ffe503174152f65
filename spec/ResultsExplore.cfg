SPECIFICATION Spec
INVARIANT Conserved
INVARIANT Apart
CHECK_DEADLOCK FALSE
