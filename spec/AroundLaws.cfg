CONSTANTS
  Narrow = FALSE
  Mixed = FALSE
  Starts <- Every
  Steps <- Times
SPECIFICATION ASpec
INVARIANT OrderLaw
INVARIANT WriteLaw
INVARIANT PlaceLaw
CHECK_DEADLOCK FALSE
