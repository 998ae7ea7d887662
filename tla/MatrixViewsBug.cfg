SPECIFICATION Spec
CONSTANTS MaxLen = 3  Scratch = FALSE  Alias = TRUE  EmitAll = FALSE
INVARIANTS Independent SymbolIntact Faithful Emit
CHECK_DEADLOCK FALSE
