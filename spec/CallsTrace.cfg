CONSTANTS
  Procs <- TProcs
  Apis <- TApis
  Texts <- TTexts
  Results <- TResults
  Lost <- TLost
SPECIFICATION Spec
INVARIANT Conforms
VIEW Step
CHECK_DEADLOCK TRUE
ALIAS Brief
