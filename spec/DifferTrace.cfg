SPECIFICATION Spec
CONSTRAINT Mark

POSTCONDITION Verdict
