SPECIFICATION Spec
INVARIANTS RoundTrip PrefixRejected NoFurther SameLength Reserve Stable Monotone
CHECK_DEADLOCK FALSE
CONSTANT TypeTable <- XTable
