SPECIFICATION Spec
CHECK_DEADLOCK FALSE
CONSTANTS
  StInit <- HdInit
  Step <- HdStep
  Inits <- GInits
  Moves <- GMoves
  MaxLen = 12
  Deep = FALSE
INVARIANTS Commutes PublicNoHard RoundTrip Exact Length EmitCase
