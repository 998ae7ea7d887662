SPECIFICATION Spec
CONSTANT MaxLen = 4
INVARIANTS SetOnly NeverStuck Emit
CHECK_DEADLOCK FALSE
