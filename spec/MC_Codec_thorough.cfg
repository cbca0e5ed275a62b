SPECIFICATION Spec
CHECK_DEADLOCK FALSE
CONSTANTS
  StInit <- CInit
  Step <- CStep
  Inits <- GInits
  Moves <- GMoves
  MaxLen = 4
  Deep = TRUE
INVARIANTS Inside EmitCase
