SPECIFICATION Spec
CHECK_DEADLOCK FALSE
CONSTANTS
  SigHash <- StubHash
  SigValid <- StubValid
  MaxN = 2
  Emit = TRUE
INVARIANTS IffMatch EmitCase
