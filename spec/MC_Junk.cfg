SPECIFICATION Spec
CHECK_DEADLOCK FALSE
CONSTANTS
  StInit <- JInit
  Step <- JStep
  Inits <- GInits
  Moves <- GMoves
  MaxLen = 99
  Deep = FALSE
INVARIANTS Whole SelfEnding EmitCase
