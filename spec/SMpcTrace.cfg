SPECIFICATION Spec
CHECK_DEADLOCK FALSE
CONSTANTS
  StInit <- SMInit
  Step <- SMStep
