SPECIFICATION Spec
CONSTANTS Writers = {1, 2}  MaxSaves = 3  Deferred = FALSE
INVARIANTS OncePerSave
CHECK_DEADLOCK FALSE
