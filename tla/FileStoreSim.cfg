SPECIFICATION Spec
CONSTANTS Files = {0, 1}
 MaxLen = 8
 ReadFirst = TRUE
 Truncate = TRUE
INVARIANTS TypeOK Exactly Closed Emit
CHECK_DEADLOCK FALSE
