----------------------------- MODULE AroundLaws -----------------------------
(* The laws of Laws, for the documents of Around.                          *)
EXTENDS Around, Laws
Every == DOMAIN Bases
Times == {CHOOSE n \in 0..9 : ToString(n) = IOEnv.AROUND_STEPS}
=============================================================================
