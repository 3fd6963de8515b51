------------------------------- MODULE CallsMC ------------------------------
(* Calls on its own, small: every interleaving of a few processes.         *)
EXTENDS Calls
MCProcs == {1, 2, 3}
MCApis == {"checked", "unchecked"}
MCTexts == {"a", "b"}
MCResults == {"x", "y", "panic"}
MCLost == {"panic", "hang", "crash"}
=============================================================================
