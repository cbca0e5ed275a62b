SPECIFICATION Spec
CHECK_DEADLOCK FALSE
CONSTANTS
  StInit <- AInit
  Step <- AStep
  Inits <- GInits
  Moves <- GMoves
  MaxLen = 99
  Deep = FALSE
INVARIANTS Again Undone WellKinded EmitCase
