CONSTANTS
  Starts <- AllStarts
  Steps <- HowMany
SPECIFICATION Spec
INVARIANT OrderLaw
INVARIANT WriteLaw
INVARIANT ReadLaw
INVARIANT PlaceLaw
CHECK_DEADLOCK FALSE
