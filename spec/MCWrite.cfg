SPECIFICATION Spec
CONSTANTS
  MaxLen = 2
  Styles = {1, 2, 3}
INVARIANTS WriteInv Emitted
CHECK_DEADLOCK FALSE
