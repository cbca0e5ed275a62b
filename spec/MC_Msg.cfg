SPECIFICATION Spec
CHECK_DEADLOCK FALSE
CONSTANTS
  StInit <- MInit
  Step <- MStep
  Inits <- GInits
  Moves <- GMoves
  MaxLen = 99
  Deep = FALSE
INVARIANTS RoundTrip Cut Same2 EmitCase
