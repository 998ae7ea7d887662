SPECIFICATION Spec
CONSTANTS MaxLen = 9  Scratch = FALSE  Alias = FALSE  EmitAll = TRUE
INVARIANTS Independent SymbolIntact Faithful Emit
CHECK_DEADLOCK FALSE
