SPECIFICATION Spec
CHECK_DEADLOCK FALSE
CONSTANTS
  StInit <- JInit
  Step <- JStep
  Inits <- GInits
  Moves <- GMoves
  MaxLen = 99
  Deep = TRUE
INVARIANTS Whole SelfEnding EmitCase
