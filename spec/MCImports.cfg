SPECIFICATION Spec
CONSTANTS
  N = 3
  MaxEdges = 3
  Members = FALSE
  Pad = 0
INVARIANTS CycleInv MergeInv ChainInv FilterInv Emitted
CHECK_DEADLOCK FALSE
