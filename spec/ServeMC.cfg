CONSTANTS N = 3 Kinds = {"frame", "timing"} MaxBad = 1 MaxCalls = 9
SPECIFICATION Fair
INVARIANTS OneHolder OnLivePage NoJam Export
PROPERTY Served
CHECK_DEADLOCK FALSE
