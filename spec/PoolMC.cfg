SPECIFICATION MCSpec
INVARIANTS StateOK Once Priority Lifo HandlersOnce Drained Progress
CHECK_DEADLOCK FALSE
