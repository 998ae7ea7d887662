SPECIFICATION Spec
CONSTANTS MaxLen = 4  Scratch = FALSE  Alias = FALSE  EmitAll = FALSE
INVARIANTS Independent SymbolIntact Faithful Emit
CHECK_DEADLOCK FALSE
