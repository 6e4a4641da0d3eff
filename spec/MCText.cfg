SPECIFICATION Spec
CONSTANTS
  MaxLen = 2
  RawLen = 3
  Places = {"error", "errorhttp", "ann", "meta", "name", "version", "enum", "service", "comment"}
  Modes = {"value", "raw", "word"}
INVARIANTS ValueInv RawInv WordInv CommentInv LosslessInv Emitted
CHECK_DEADLOCK FALSE
