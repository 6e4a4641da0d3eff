SPECIFICATION Spec
CONSTANTS
  MaxLen = 2
  Wanted = {}
INVARIANTS LosslessInv ErrorInv LayoutInv CommentInv UnendedInv Emitted
CHECK_DEADLOCK FALSE
