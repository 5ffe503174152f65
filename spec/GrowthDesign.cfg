SPECIFICATION Spec
INVARIANT NoWrap
INVARIANT Unchanged
INVARIANT Needed
INVARIANT Reason
CHECK_DEADLOCK FALSE
