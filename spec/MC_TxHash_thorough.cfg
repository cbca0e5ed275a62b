SPECIFICATION Spec
CHECK_DEADLOCK FALSE
CONSTANTS
  SigHash <- TxSigHash
  SigValid <- TxSigValid
  StInit <- TInit
  Step <- TStep
  Inits <- GInits
  Moves <- GMoves
  MaxLen = 99
  Deep = TRUE
INVARIANTS Committed Distinct EmitCase
