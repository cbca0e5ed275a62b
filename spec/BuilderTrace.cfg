SPECIFICATION Spec
CHECK_DEADLOCK FALSE
CONSTANTS
  SigHash <- TxSigHash
  SigValid <- TxSigValid
  StInit <- BInit
  Step <- BStep
