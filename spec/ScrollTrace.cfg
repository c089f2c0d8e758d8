SPECIFICATION Spec
CONSTRAINT Mark
INVARIANTS InRange
POSTCONDITION Verdict
