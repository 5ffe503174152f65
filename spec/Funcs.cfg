SPECIFICATION Spec
CONSTANT TypeTable <- FnTable
CHECK_DEADLOCK FALSE
