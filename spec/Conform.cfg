CONSTANTS
  Sources <- TLines
  TextOf_ <- TText
SPECIFICATION Spec
INVARIANT Conforms
INVARIANT SpansNested
INVARIANT Progress
INVARIANT NothingLost
CHECK_DEADLOCK TRUE
VIEW Step
ALIAS Brief
