SPECIFICATION Spec
CHECK_DEADLOCK FALSE
CONSTANTS
  StInit <- PInit
  Step <- PStep
