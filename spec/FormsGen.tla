------------------------------ MODULE FormsGen ------------------------------
EXTENDS Forms, Json, IOUtils, SequencesExt
ASSUME OwnVariants
ASSUME LET s == SetToSeq(ProbeSet) IN ndJsonSerialize(IOEnv.SCOPE_OUT, s) /\ PrintT(<<"SCOPE", "C25", Len(s)>>)
=============================================================================
