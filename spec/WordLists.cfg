SPECIFICATION WSpec
INVARIANT Shape
CHECK_DEADLOCK FALSE
