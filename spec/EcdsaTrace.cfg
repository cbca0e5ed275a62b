SPECIFICATION Spec
CHECK_DEADLOCK FALSE
CONSTANTS
  StInit <- EInit
  Step <- EStep
