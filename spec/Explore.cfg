SPECIFICATION Spec
VIEW Shape
INVARIANTS Inside ReadsBack
CHECK_DEADLOCK FALSE
CONSTANT TypeTable <- XTable
