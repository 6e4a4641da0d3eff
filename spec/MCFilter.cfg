SPECIFICATION Spec
CONSTANTS
  MaxOps = 2
  Used = {1, 3, 4}
  Spread = TRUE
INVARIANTS ValidInv KeepInv IdemInv CommuteInv DivideInv Emitted
CHECK_DEADLOCK FALSE
