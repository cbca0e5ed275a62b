SPECIFICATION Spec
CHECK_DEADLOCK FALSE
CONSTANTS
  StInit <- EInit
  Step <- EStep
  Inits <- GInits
  Moves <- GMoves
  MaxLen = 2
  Deep = TRUE
INVARIANTS Sound OnlyThis DerBack EmitCase
