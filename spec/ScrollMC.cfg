SPECIFICATION Spec
CONSTANTS
  MaxX = 500
  MaxY = 1200
  VW = 400
  VH = 400
  Deep = FALSE
INVARIANTS InRange DepthOk ClockExact NoOvershoot Export
PROPERTIES Moves Terminates
