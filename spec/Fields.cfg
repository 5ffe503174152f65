SPECIFICATION Spec
INVARIANTS Meaning Wrapped
CHECK_DEADLOCK FALSE
CONSTANT TypeTable <- XTable
