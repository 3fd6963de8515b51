-------------------------------- MODULE Frag --------------------------------
(* Putting texts together.                                                 *)
EXTENDS Naturals, Sequences, FiniteSets, TLC

RECURSIVE J(_)
J(s) == IF s = <<>> THEN "" ELSE Head(s) \o J(Tail(s))
RECURSIVE JoinBy(_, _)
JoinBy(s, sep) == IF s = <<>> THEN "" ELSE IF Len(s) = 1 THEN s[1] ELSE s[1] \o sep \o JoinBy(Tail(s), sep)

(* all sequences over S with lengths in N *)
SeqsOf(S, N) == UNION { [1..n -> S] : n \in N }
(* comma-separated lists in brackets, blocks with one member per line *)
List(open, s, close) == open \o JoinBy(s, ", ") \o close
Block(head, s) == head \o " {\n" \o JoinBy(s, "\n") \o "\n}\n"
Lists(S, N) == { List("[", s, "]") : s \in SeqsOf(S, N) }

Prj == "Project p { database_type: 'PostgreSQL' }\n"
Chars(s) == { SubSeq(s, k, k) : k \in 1..Len(s) }
Strings(A, N) == { J(s) : s \in SeqsOf(A, N) }

(* neighbours of a sequence of tokens: every truncation, deletion,         *)
(* doubling, exchange of neighbours, insertion and replacement             *)
Cut(s) == { SubSeq(s, 1, k) : k \in 0..(Len(s) - 1) }
Without(s, k) == SubSeq(s, 1, k - 1) \o SubSeq(s, k + 1, Len(s))
Deleted(s) == { Without(s, k) : k \in 1..Len(s) }
Doubled(s) == { SubSeq(s, 1, k) \o SubSeq(s, k, Len(s)) : k \in 1..Len(s) }
Swapped(s) == { SubSeq(s, 1, k - 1) \o <<s[k + 1], s[k]>> \o SubSeq(s, k + 2, Len(s)) : k \in 1..(Len(s) - 1) }
Inserted(s, A) == { SubSeq(s, 1, k) \o <<a>> \o SubSeq(s, k + 1, Len(s)) : a \in A, k \in 0..Len(s) }
Replaced(s, A) == { [s EXCEPT ![k] = a] : a \in A, k \in 1..Len(s) }
Near(s, A) == {s} \cup Cut(s) \cup Deleted(s) \cup Doubled(s) \cup Swapped(s) \cup Inserted(s, A) \cup Replaced(s, A)

(* all orders of the members of a sequence                                 *)
RECURSIVE Perms(_)
Perms(n) == IF n = 0 THEN { <<>> }
            ELSE { SubSeq(p, 1, k) \o <<n>> \o SubSeq(p, k + 1, n - 1) : p \in Perms(n - 1), k \in 0..(n - 1) }
Reorderings(s) == { [k \in 1..Len(s) |-> s[p[k]]] : p \in Perms(Len(s)) }
=============================================================================
