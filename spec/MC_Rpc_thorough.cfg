SPECIFICATION Spec
CHECK_DEADLOCK FALSE
CONSTANTS
  StInit <- RInit
  Step <- RStep
  Inits <- GInits
  Moves <- GMoves
  MaxLen = 99
  Deep = TRUE
INVARIANTS Outcomes EmitCase
