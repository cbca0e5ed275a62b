SPECIFICATION Spec
CHECK_DEADLOCK FALSE
CONSTANTS
  MaxLen = 3
  Wide = TRUE
  Emit = TRUE
INVARIANTS RoundTrip Shortest Reserial Removes TypesDisjoint EmitCase
