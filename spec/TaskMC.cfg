CONSTANTS Slots <- S
MaxCount <- Most
AllKinds <- All
SPECIFICATION Spec
VIEW View
INVARIANTS TypeOK Owned Emit
PROPERTIES Keeps
CHECK_DEADLOCK FALSE
