SPECIFICATION Spec
CONSTANTS
  MaxLen = 3
  Workers = 2
INVARIANTS IndependentInv MeaningInv Emitted
CHECK_DEADLOCK FALSE
