SPECIFICATION Spec
CHECK_DEADLOCK FALSE
CONSTANTS
  StInit <- MnInit
  Step <- MnStep
