SPECIFICATION TraceSpec
CONSTANT Slack = 300
CONSTRAINT Book
POSTCONDITION Report
CHECK_DEADLOCK FALSE
