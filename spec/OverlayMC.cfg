CONSTANTS Show = TRUE
SPECIFICATION Spec
INVARIANTS Within NotBefore Fades Legible Complete InTime Ordered LastDue Export
PROPERTIES CaretFollows
CHECK_DEADLOCK FALSE
