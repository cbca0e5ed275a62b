SPECIFICATION Spec
CHECK_DEADLOCK FALSE
CONSTANTS
  StInit <- PInit
  Step <- PStep
  Inits <- GInits
  Moves <- GMoves
  MaxLen = 99
  Deep = TRUE
INVARIANTS Delivered Partial EmitCase
