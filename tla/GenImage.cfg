SPECIFICATION Spec
CONSTANT MaxLen = 3
INVARIANTS LastWins Sound Emit
CHECK_DEADLOCK FALSE
