SPECIFICATION Spec
CONSTRAINT Mark
INVARIANTS TypeOK OnSchedule
POSTCONDITION Verdict
