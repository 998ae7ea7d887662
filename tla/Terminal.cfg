SPECIFICATION Spec
CONSTANT MaxEvents = 3
INVARIANTS Skips FlushedOnce Emit
PROPERTY Restores
CHECK_DEADLOCK FALSE
