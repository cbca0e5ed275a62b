SPECIFICATION Spec
CHECK_DEADLOCK FALSE
CONSTANTS
  StInit <- HdInit
  Step <- HdStep
