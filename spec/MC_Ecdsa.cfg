SPECIFICATION Spec
CHECK_DEADLOCK FALSE
CONSTANTS
  StInit <- EInit
  Step <- EStep
  Inits <- GInits
  Moves <- GMoves
  MaxLen = 2
  Deep = FALSE
INVARIANTS Sound OnlyThis DerBack EmitCase
