SPECIFICATION Spec
CONSTANTS Chunks = 6
 CheckLast = FALSE
INVARIANT Reported
CHECK_DEADLOCK FALSE
