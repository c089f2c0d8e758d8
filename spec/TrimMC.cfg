SPECIFICATION Spec
INVARIANTS Faithful InSpan Repeats Export
