SPECIFICATION Spec
CONSTANT TypeTable <- TraceTable
CHECK_DEADLOCK FALSE
