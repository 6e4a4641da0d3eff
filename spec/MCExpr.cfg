SPECIFICATION Spec
CONSTANTS
  Depth = 2
  JunkLen = 2
  Modes = {"grow", "junk"}
INVARIANTS CanonInv GrowInv RidlInv RidlInv2 Emitted
CHECK_DEADLOCK FALSE
