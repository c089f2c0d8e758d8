CONSTANT Depth = 2
SPECIFICATION Spec
INVARIANTS InScreen Shape Distinct Bounded Export
CHECK_DEADLOCK FALSE
