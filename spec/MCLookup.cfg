SPECIFICATION Spec
CONSTANTS
  MaxDecl = 3
INVARIANTS GoodInv FoundInv RequiredInv TypesInv Emitted
CHECK_DEADLOCK FALSE
