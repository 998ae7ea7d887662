SPECIFICATION Spec
CONSTANT MaxLen = 3
INVARIANTS TwoIsColourless Emit
CHECK_DEADLOCK FALSE
