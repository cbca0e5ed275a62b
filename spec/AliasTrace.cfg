SPECIFICATION Spec
CHECK_DEADLOCK FALSE
CONSTANTS
  StInit <- AInit
  Step <- AStep
