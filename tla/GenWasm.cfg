SPECIFICATION Spec
CONSTANT MaxLen = 2
INVARIANTS Alive Emit
CHECK_DEADLOCK FALSE
