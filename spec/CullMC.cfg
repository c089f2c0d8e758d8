SPECIFICATION Spec
INVARIANTS Safe Export
