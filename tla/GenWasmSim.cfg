SPECIFICATION Spec
CONSTANT MaxLen = 9
INVARIANTS Alive Emit
CHECK_DEADLOCK FALSE
