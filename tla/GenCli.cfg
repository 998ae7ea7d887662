SPECIFICATION Spec
CONSTANT MaxLen = 1
INVARIANT Emit
CHECK_DEADLOCK FALSE
