CONSTANTS Total = 8 Show = TRUE
SPECIFICATION Spec
INVARIANTS Lookup Silent Unmarked Cleared Grows Inside Standing Export
CHECK_DEADLOCK FALSE
