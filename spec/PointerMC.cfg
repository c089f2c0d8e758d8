CONSTANTS Total = 7 Show = TRUE
SPECIFICATION Spec
INVARIANTS Lookup Rests Arrives Smooth Export
CHECK_DEADLOCK FALSE
