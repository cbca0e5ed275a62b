SPECIFICATION Spec
CHECK_DEADLOCK FALSE
CONSTANTS
  Modulus = 43
  Ks = 10
INVARIANTS Closed Commutes Associates Neutral Multiples
