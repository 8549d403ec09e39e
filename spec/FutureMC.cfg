CONSTANT Slots <- MCSlots
SPECIFICATION MCSpec
INVARIANTS StateInv Once Returned ArgumentsOf ErrorsPass Joins JoinErrors HeldResolved NotCancelled Progress
PROPERTY Kept
CHECK_DEADLOCK FALSE
