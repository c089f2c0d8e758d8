SPECIFICATION Spec
INVARIANTS Holds Between Replays Export
