SPECIFICATION Spec
CONSTANTS Chunks = 6
 CheckLast = TRUE
INVARIANT Reported
PROPERTY Terminates
CHECK_DEADLOCK FALSE
