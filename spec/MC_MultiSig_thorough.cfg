SPECIFICATION Spec
CHECK_DEADLOCK FALSE
CONSTANTS
  SigHash <- StubHash
  SigValid <- StubValid
  MaxN = 3
  Emit = TRUE
INVARIANTS IffMatch EmitCase
