CONSTANTS N = 2 Kinds = {"frame", "timing"} MaxBad = 3 MaxCalls = 9
SPECIFICATION Fair
INVARIANTS OneHolder OnLivePage NoJam Export
PROPERTY Served
CHECK_DEADLOCK FALSE
