SPECIFICATION Spec
CONSTANTS
  MaxLen = 1
  TextLen = 3
  Modes = {"share", "text", "version", "types"}
INVARIANTS PureInv SetInv SortInv TextInv VersionInv TypesInv Emitted
CHECK_DEADLOCK FALSE
