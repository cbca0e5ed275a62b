SPECIFICATION Spec
CHECK_DEADLOCK FALSE
CONSTANTS
  SigHash <- TxSigHash
  SigValid <- TxSigValid
  StInit <- BInit
  Step <- BStep
  Inits <- GInits
  Moves <- GMoves
  MaxLen = 99
  Deep = FALSE
INVARIANTS Balanced InOrder FeeFits Refused Verifies EmitCase
