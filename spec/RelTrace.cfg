CONSTANTS
  Sources <- TLines
  TextOf_ <- TText
SPECIFICATION Spec
INVARIANT Conforms
INVARIANT Classified
VIEW Step
CHECK_DEADLOCK TRUE
ALIAS Brief
