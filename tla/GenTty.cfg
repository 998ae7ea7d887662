SPECIFICATION Spec
CONSTANT MaxResizes = 2
INVARIANTS Restored Honest Emit
CHECK_DEADLOCK FALSE
