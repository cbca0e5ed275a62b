SPECIFICATION Spec
CHECK_DEADLOCK FALSE
CONSTANTS
  SigHash <- StubHash
  SigValid <- StubValid
  MaxLen = 3
  Emit = TRUE
INVARIANTS NoBypass EmitCase
