SPECIFICATION Spec
CONSTANT MaxLen = 3
INVARIANTS SetOnly NeverStuck Emit
CHECK_DEADLOCK FALSE
