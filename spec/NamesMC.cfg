CONSTANTS Pool = {"a", "a-1", "c0_a"} Tokens <- Toks Show = TRUE
SPECIFICATION Spec
INVARIANTS Safe Export
CHECK_DEADLOCK FALSE
