CONSTANTS
  Starts <- AllStarts
  Steps <- HowMany
SPECIFICATION Spec
INVARIANT Written
CHECK_DEADLOCK FALSE
