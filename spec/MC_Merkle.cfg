SPECIFICATION Spec
CHECK_DEADLOCK FALSE
CONSTANTS
  StInit <- MInit
  Step <- MStep
  Inits <- GInits
  Moves <- GMoves
  MaxLen = 3
  Deep = FALSE
INVARIANTS Complete1 Sound ProofLen EmitCase
