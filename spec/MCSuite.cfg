SPECIFICATION Spec
CONSTANTS
  MaxDeviations = 2
INVARIANTS RefInv MonotoneInv SentInv Emitted
CHECK_DEADLOCK FALSE
