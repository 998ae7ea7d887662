SPECIFICATION Spec
CONSTANTS Files = {0, 1}
 MaxLen = 3
 ReadFirst = TRUE
 Truncate = TRUE
INVARIANTS TypeOK Exactly Closed Emit
PROPERTY Others
CHECK_DEADLOCK FALSE
