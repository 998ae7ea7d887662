SPECIFICATION Spec
CONSTANTS Files = {0, 1}
 MaxLen = 3
 ReadFirst = FALSE
 Truncate = TRUE
INVARIANTS Exactly
CHECK_DEADLOCK FALSE
