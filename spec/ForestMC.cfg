CONSTANT N <- MaxNodes
SPECIFICATION Spec
VIEW View
INVARIANTS TypeOK Disjoint Emit
PROPERTIES Keeps Promotes
CHECK_DEADLOCK FALSE
