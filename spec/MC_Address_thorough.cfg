SPECIFICATION Spec
CHECK_DEADLOCK FALSE
CONSTANTS
  StInit <- AInit
  Step <- AStep
  Inits <- GInits
  Moves <- GMoves
  MaxLen = 2
  Deep = TRUE
INVARIANTS Own Never LockBack EmitCase
