SPECIFICATION Spec
CONSTANTS N = 4  Scores = {1, 2, 3}  TieBreak = TRUE
INVARIANT ScheduleIndependent
PROPERTY Terminates
VIEW View
CHECK_DEADLOCK FALSE
