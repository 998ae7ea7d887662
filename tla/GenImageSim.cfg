SPECIFICATION Spec
CONSTANT MaxLen = 9
INVARIANTS LastWins Sound Emit
CHECK_DEADLOCK FALSE
