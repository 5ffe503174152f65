SPECIFICATION Spec
VIEW Shape
INVARIANTS Once Answers MessageDue
CHECK_DEADLOCK FALSE
CONSTANT TypeTable <- XTable
