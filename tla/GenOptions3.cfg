SPECIFICATION Spec
CONSTANT MaxLen = 3
INVARIANTS LastValidWins InRange Emit
CHECK_DEADLOCK FALSE
