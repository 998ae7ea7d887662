SPECIFICATION Spec
CONSTANTS N = 8  Scores = {1, 2}  TieBreak = TRUE
INVARIANTS ScheduleIndependent Emit
CHECK_DEADLOCK FALSE
