SPECIFICATION Spec
CHECK_DEADLOCK FALSE
CONSTANTS
  StInit <- SInit
  Step <- SStep
  Inits <- GInits
  Moves <- GMoves
  MaxLen = 2
  Deep = FALSE
INVARIANTS Sound OnlyThis EmitCase
