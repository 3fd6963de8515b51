-------------------------------- MODULE Calls --------------------------------
(* The library as its callers see it over time: any number of processes    *)
(* calling its two entry points.  A call returns (C01), and what it        *)
(* returns is a function of the entry point and the text (C11): nothing    *)
(* that happened before or happens at the same time is part of it.         *)
EXTENDS Naturals, Sequences, FiniteSets, TLC

CONSTANTS Procs, Apis, Texts, Results,
          Lost            \* results that are not results: a panic, a hang, a crash

VARIABLES pend,           \* per process: <<>> or <<api, text>> of the call under way
          memo            \* <<api, text>> -> what it is known to return
cvars == <<pend, memo>>

Keys == Apis \X Texts
CallsInit == pend = [p \in Procs |-> <<>>] /\ memo = [k \in {} |-> ""]

Call(p, a, t) == /\ pend[p] = <<>>
                 /\ pend' = [pend EXCEPT ![p] = <<a, t>>]
                 /\ UNCHANGED memo

Agrees(k, r) == k \in DOMAIN memo => memo[k] = r
Remember(k, r) == memo' = IF k \in DOMAIN memo THEN memo ELSE memo @@ (k :> r)

Return(p, r) == /\ pend[p] # <<>>
                /\ r \notin Lost
                /\ Agrees(pend[p], r)
                /\ Remember(pend[p], r)
                /\ pend' = [pend EXCEPT ![p] = <<>>]

CallsNext == \E p \in Procs : \/ \E a \in Apis, t \in Texts : Call(p, a, t)
                              \/ \E r \in Results : Return(p, r)
CallsSpec == CallsInit /\ [][CallsNext]_cvars /\ \A p \in Procs : WF_cvars(\E r \in Results : Return(p, r))

(* ------------------------------ properties ----------------------------- *)
CallsTypeOK == /\ \A p \in Procs : pend[p] = <<>> \/ pend[p] \in Keys
               /\ DOMAIN memo \subseteq Keys
NoneLost == \A k \in DOMAIN memo : memo[k] \notin Lost
(* What is known never changes.                                            *)
Pure == [][\A k \in DOMAIN memo : k \in DOMAIN memo' /\ memo'[k] = memo[k]]_cvars
(* Every call returns.                                                     *)
Returns == \A p \in Procs : pend[p] # <<>> ~> pend[p] = <<>>
=============================================================================
