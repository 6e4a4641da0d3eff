SPECIFICATION Spec
CONSTANTS
  N = 1
  Set = "ends"
INVARIANTS PrefixInv FinishedInv FailedInv OnceInv AbortInv JudgeInv Emitted
CHECK_DEADLOCK FALSE
