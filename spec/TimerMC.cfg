CONSTANT Slack <- MCSlack
SPECIFICATION MCSpec
INVARIANTS StateOK NotEarly NotLate DueOrder Progress Ends
CHECK_DEADLOCK FALSE
