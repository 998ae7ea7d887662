SPECIFICATION Spec
CONSTANTS N = 3  Scores = {1, 2}  TieBreak = FALSE
INVARIANT ScheduleIndependent
CHECK_DEADLOCK FALSE
