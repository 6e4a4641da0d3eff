SPECIFICATION Spec
CONSTANTS
  MaxEdits = 2
INVARIANTS RuleInv EditInv Emitted
CHECK_DEADLOCK FALSE
