CONSTANTS NF = 1 NP = 2 MaxSw = 99
SPECIFICATION Spec
INVARIANTS Verified ProgramLast PathMeansThere Tidy Export
PROPERTY NeverWorseHere
CHECK_DEADLOCK FALSE
