SPECIFICATION Spec
CONSTANTS MaxLen = 3
 Slots = {1, 2}
 Flaw = "none"
INVARIANTS NothingRuns NothingOpen Emit
CHECK_DEADLOCK FALSE
