CONSTANTS
  Narrow <- OnlyClose
  Mixed <- OneByOne
  Starts <- Asked
  Steps <- HowMany
SPECIFICATION ASpec
INVARIANT Written
CHECK_DEADLOCK FALSE
