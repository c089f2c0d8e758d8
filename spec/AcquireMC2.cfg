CONSTANTS NF = 2 NP = 2 MaxSw = 2
SPECIFICATION Spec
INVARIANTS Verified ProgramLast PathMeansThere Tidy Export
PROPERTY NeverWorseHere
CHECK_DEADLOCK FALSE
