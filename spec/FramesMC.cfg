SPECIFICATION Spec
CONSTANTS
  HoldSet = {2}
  TrSet = {1}
  KindSet = {"crossfade","cut","push-left","push-right","push-up","push-down","scroll","wipe","iris","zoom-in","zoom-out","shine","wipe-radial","wipe-clock"}
  MaxN = 3
  Cycles = 2
INVARIANTS TypeOK OnSchedule InPhase InOrder Export
