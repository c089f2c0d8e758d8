CONSTANTS
 N = 3
 FACES = 4
SPECIFICATION Spec
INVARIANT EachOnce NothingMissed KindsRight InOrder SameAsBefore Export
