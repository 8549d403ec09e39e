SPECIFICATION MCSpec
INVARIANTS StateOK Counts NeverMore MCProgress
CHECK_DEADLOCK FALSE
