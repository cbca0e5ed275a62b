SPECIFICATION Spec
CHECK_DEADLOCK FALSE
CONSTANTS
  StInit <- AInit
  Step <- PStep
  Inits <- GInits
  Moves <- GMoves
  MaxLen = 5
  Deep = FALSE
INVARIANTS InRange Undo EmitCase
