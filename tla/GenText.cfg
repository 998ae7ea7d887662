SPECIFICATION Spec
CONSTANT MaxLen = 3
INVARIANTS Confined Shape Emit
CHECK_DEADLOCK FALSE
