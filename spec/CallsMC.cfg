CONSTANTS
  Procs <- MCProcs
  Apis <- MCApis
  Texts <- MCTexts
  Results <- MCResults
  Lost <- MCLost
SPECIFICATION CallsSpec
INVARIANT CallsTypeOK
INVARIANT NoneLost
PROPERTY Pure
PROPERTY Returns
CHECK_DEADLOCK FALSE
