SPECIFICATION TraceSpec
CONSTRAINT Book
POSTCONDITION Report
CHECK_DEADLOCK FALSE
