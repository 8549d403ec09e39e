CONSTANTS MaxLen <- Len0
Nodes <- Count
SPECIFICATION Spec
VIEW View
INVARIANTS Until Emit
PROPERTIES Touches
CHECK_DEADLOCK FALSE
