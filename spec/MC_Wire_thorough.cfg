SPECIFICATION Spec
CHECK_DEADLOCK FALSE
CONSTANTS
  Senders <- TheSenders
  Count = 2
  Pieces = 2
  Window = 2
  Shared = FALSE
INVARIANTS Clean Mixed Order Once
PROPERTIES Quiet Silent Arrives Returns Noticed
