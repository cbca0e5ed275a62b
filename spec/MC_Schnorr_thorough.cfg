SPECIFICATION Spec
CHECK_DEADLOCK FALSE
CONSTANTS
  StInit <- SInit
  Step <- SStep
  Inits <- GInits
  Moves <- GMoves
  MaxLen = 2
  Deep = TRUE
INVARIANTS Sound OnlyThis EmitCase
