SPECIFICATION Spec
CONSTANT MaxLen = 2
INVARIANTS LastValidWins InRange Emit
CHECK_DEADLOCK FALSE
