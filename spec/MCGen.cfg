SPECIFICATION Spec
CONSTANTS
  MaxLen = 2
  Bases = {1}
  Envs = {1}
INVARIANTS SafeInv SchemaInv OptsInv SwapInv Emitted
CHECK_DEADLOCK FALSE
