SPECIFICATION Spec
CHECK_DEADLOCK FALSE
CONSTANTS
  StInit <- AInit
  Step <- AStep
  Inits <- GInits
  Moves <- GMoves
  MaxLen = 2
  Deep = FALSE
INVARIANTS Own Never LockBack EmitCase
