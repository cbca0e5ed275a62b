SPECIFICATION Spec
CHECK_DEADLOCK FALSE
CONSTANTS
  StInit <- SMInit
  Step <- SMStep
  Inits <- GInits
  Moves <- GMoves
  MaxLen = 30
  Deep = TRUE
INVARIANTS Agree Valid EmitCase
