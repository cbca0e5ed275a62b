SPECIFICATION Spec
CHECK_DEADLOCK FALSE
CONSTANTS
  SigHash <- StubHash
  SigValid <- StubValid
  MaxLen = 4
  Emit = TRUE
INVARIANTS TypeOK BytesAgree Nesting Verdict EmitCase
PROPERTIES Untaken Branches SigEvidence
