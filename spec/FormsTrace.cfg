SPECIFICATION Spec
INVARIANT Conforms
CHECK_DEADLOCK TRUE
ALIAS Brief
