SPECIFICATION Spec
CONSTANTS
  N = 2
  Set = "results"
INVARIANTS OnceInv ResultInv FailureInv StatusInv AloneInv Emitted
CHECK_DEADLOCK FALSE
