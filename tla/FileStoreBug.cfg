SPECIFICATION Spec
CONSTANTS Files = {0, 1}
 MaxLen = 3
 ReadFirst = TRUE
 Truncate = FALSE
INVARIANTS Exactly
CHECK_DEADLOCK FALSE
