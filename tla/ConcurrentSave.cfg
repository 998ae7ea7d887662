SPECIFICATION Spec
CONSTANTS
 N = 2
 Shared = FALSE
INVARIANT Isolated
PROPERTY AllDone
CHECK_DEADLOCK FALSE
