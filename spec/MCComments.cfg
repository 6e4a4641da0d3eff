SPECIFICATION Spec
CONSTANTS
  MaxLen = 3
  Wanted = {}
INVARIANTS DocInv OnceInv BareInv Emitted
CHECK_DEADLOCK FALSE
