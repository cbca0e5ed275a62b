SPECIFICATION Spec
CHECK_DEADLOCK FALSE
CONSTANTS
  Senders <- TheSenders
  Count = 1
  Pieces = 2
  Window = 1
  Shared = FALSE
INVARIANTS Clean Mixed Order Once
PROPERTIES Quiet Silent Arrives Returns Noticed
