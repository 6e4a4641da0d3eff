SPECIFICATION Spec
CONSTANTS
  MaxLen = 3
INVARIANTS PathInv OpenInv Emitted
CHECK_DEADLOCK FALSE
