SPECIFICATION Spec
CONSTANTS
  MaxRuns = 2
  Ages = {2, 3}
  Cuts = {"", "last"}
INVARIANTS OneVersionInv FreshInv KeptInv WholeInv Emitted
CHECK_DEADLOCK FALSE
