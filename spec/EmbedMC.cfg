CONSTANTS Periods = {2, 4, 6} Starts = {0, 1, 3, 5} Masters = {4, 6, 9, 14} Vals = {0, 1, 5} Show = TRUE
SPECIFICATION Spec
INVARIANTS Moves Forward Rests Waits Round Export
CHECK_DEADLOCK FALSE
