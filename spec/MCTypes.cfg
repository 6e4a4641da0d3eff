SPECIFICATION Spec
CONSTANTS
  N = 3
  MaxMembers = 2
  Big = FALSE
INVARIANTS ValidInv ShakeInv BigInv Emitted
CHECK_DEADLOCK FALSE
