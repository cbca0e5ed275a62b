SPECIFICATION Spec
CHECK_DEADLOCK FALSE
CONSTANTS
  StInit <- MnInit
  Step <- MnStep
  Inits <- GInits
  Moves <- GMoves
  MaxLen = 3
  Deep = TRUE
INVARIANTS Lossless OneToOne EmitCase
