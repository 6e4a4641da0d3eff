SPECIFICATION Spec
CONSTANTS
  MaxLen = 2
  Wanted = {}
INVARIANTS LosslessInv TotalInv Emitted
CHECK_DEADLOCK FALSE
