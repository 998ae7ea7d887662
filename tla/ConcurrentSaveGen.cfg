SPECIFICATION Spec
CONSTANTS
 N = 3
 Shared = FALSE
INVARIANTS Isolated Emit
CHECK_DEADLOCK FALSE
