SPECIFICATION Spec
CONSTANTS
 N = 2
 Shared = TRUE
INVARIANT Isolated
CHECK_DEADLOCK FALSE
