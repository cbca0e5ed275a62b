SPECIFICATION Spec
CHECK_DEADLOCK FALSE
CONSTANTS
  StInit <- JInit
  Step <- JStep
