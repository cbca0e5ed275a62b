SPECIFICATION Spec
CHECK_DEADLOCK FALSE
CONSTANTS
  StInit <- MpcInit
  Step <- MpcStep
  Inits <- GInits
  Moves <- GMoves
  MaxLen = 27
  Deep = FALSE
INVARIANTS Agree Secret NoForgery EmitCase
