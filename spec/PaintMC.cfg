CONSTANTS Max = 3 Show = TRUE
SPECIFICATION Spec
INVARIANTS Once Atomic Ranks Inside Above Export
CHECK_DEADLOCK FALSE
