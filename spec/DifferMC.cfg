CONSTANTS
 N = 3
 FACES = 3
SPECIFICATION Spec
INVARIANT EachOnce NothingMissed KindsRight InOrder SameAsBefore Export
