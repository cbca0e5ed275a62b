SPECIFICATION Spec
CHECK_DEADLOCK FALSE
CONSTANTS
  StInit <- CInit
  Step <- CStep
