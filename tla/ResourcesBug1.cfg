SPECIFICATION Spec
CONSTANTS MaxLen = 2
 Slots = {1, 2}
 Flaw = "early-return"
INVARIANTS NothingRuns
CHECK_DEADLOCK FALSE
