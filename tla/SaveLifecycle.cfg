SPECIFICATION Spec
CONSTANTS Writers = {1, 2}  MaxSaves = 3  Deferred = TRUE
INVARIANTS OncePerSave ReportsWrite NilSucceeds Emit
PROPERTY Returns
CHECK_DEADLOCK FALSE
