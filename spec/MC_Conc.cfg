SPECIFICATION Spec
CHECK_DEADLOCK FALSE
CONSTANTS
  StInit <- CInit
  Step <- CStep
  Inits <- GInits
  Moves <- GMoves
  MaxLen = 99
  Deep = FALSE
INVARIANTS EmitCase
