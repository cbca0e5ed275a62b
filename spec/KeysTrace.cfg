SPECIFICATION Spec
CHECK_DEADLOCK FALSE
CONSTANTS
  StInit <- KInit
  Step <- KStep
