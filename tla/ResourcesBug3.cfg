SPECIFICATION Spec
CONSTANTS MaxLen = 2
 Slots = {1, 2}
 Flaw = "option-leak"
INVARIANTS NothingOpen
CHECK_DEADLOCK FALSE
