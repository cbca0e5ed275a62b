SPECIFICATION Spec
CHECK_DEADLOCK FALSE
CONSTANT Leaky = FALSE
INVARIANTS AsAlone Done
