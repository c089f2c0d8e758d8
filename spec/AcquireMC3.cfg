CONSTANTS NF = 3 NP = 3 MaxSw = 0
SPECIFICATION Spec
INVARIANTS Verified ProgramLast PathMeansThere Tidy Export
PROPERTY NeverWorseHere
CHECK_DEADLOCK FALSE
