SPECIFICATION Spec
CHECK_DEADLOCK FALSE
CONSTANTS
  MaxLen = 2
  Wide = FALSE
  Emit = TRUE
INVARIANTS RoundTrip Shortest Reserial Removes TypesDisjoint EmitCase
