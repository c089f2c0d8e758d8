CONSTANTS MaxN = 4
SPECIFICATION Spec
INVARIANTS Once Whole Released Export
PROPERTIES Ends2
CHECK_DEADLOCK FALSE
