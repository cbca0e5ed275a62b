SPECIFICATION Spec
CHECK_DEADLOCK FALSE
CONSTANTS
  Modulus = 67
  Ks = 60
INVARIANTS Closed Commutes Associates Neutral Multiples
