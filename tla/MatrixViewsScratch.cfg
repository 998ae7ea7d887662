SPECIFICATION Spec
CONSTANTS MaxLen = 4  Scratch = TRUE  Alias = FALSE  EmitAll = FALSE
INVARIANTS Faithful Emit
CHECK_DEADLOCK FALSE
