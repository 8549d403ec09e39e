SPECIFICATION MCSpec
INVARIANTS StateOK Once Alone InOrder NoneOvertaken OnePerTask SingleIsExact Progress
CHECK_DEADLOCK FALSE
