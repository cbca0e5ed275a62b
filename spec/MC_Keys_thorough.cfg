SPECIFICATION Spec
CHECK_DEADLOCK FALSE
CONSTANTS
  StInit <- KInit
  Step <- KStep
  Inits <- GInits
  Moves <- GMoves
  MaxLen = 5
  Deep = TRUE
INVARIANTS Homo Product Curve EmitCase
