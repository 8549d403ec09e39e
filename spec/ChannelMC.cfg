SPECIFICATION MCSpec
INVARIANTS TypeOK NoDup Fifo Chain Arrived Ended0 NotBefore CloseOnce CloseTold MergeOrder Buffers Progress
PROPERTY CloseLast
CHECK_DEADLOCK FALSE
