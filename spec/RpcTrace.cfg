SPECIFICATION Spec
CHECK_DEADLOCK FALSE
CONSTANTS
  StInit <- RInit
  Step <- RStep
