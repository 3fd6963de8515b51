-------------------------------- MODULE Lex --------------------------------
(* Characters, scanning and tokens of DBML.                                *)
(* A text is a TLA+ string; positions are 1-based; an operator that tries  *)
(* to match at position i returns the position after the match, 0 if none. *)
EXTENDS Naturals, Integers, Sequences, FiniteSets, TLC

Ch(t, i) == IF i > Len(t) THEN "" ELSE SubSeq(t, i, i)
Sub(t, i, j) == SubSeq(t, i, j)                       \* "" if j < i

CharsOf(s) == { SubSeq(s, k, k) : k \in 1..Len(s) }
UpperS == "ABCDEFGHIJKLMNOPQRSTUVWXYZ"
LowerS == "abcdefghijklmnopqrstuvwxyz"
DigitS == "0123456789"
Upper == CharsOf(UpperS)
Lower == CharsOf(LowerS)
Digit == CharsOf(DigitS)
Alpha == Upper \cup Lower
Word  == Alpha \cup Digit \cup {"_"}
Hex   == Digit \cup CharsOf("abcdefABCDEF")
Blank == {" ", "\t", "\n", "\r"}
Newline == {"\n", "\r"}

LowerOf == [c \in Upper |-> LET k == CHOOSE k \in 1..26 : SubSeq(UpperS, k, k) = c
                            IN SubSeq(LowerS, k, k)]
ToLower(c) == IF c \in Upper THEN LowerOf[c] ELSE c
DigitVal == [c \in Digit |-> (CHOOSE k \in 1..10 : SubSeq(DigitS, k, k) = c) - 1]

(* The first position from i on whose character satisfies P, or Len(t)+1.  *)
First(t, i, P(_)) ==
  CHOOSE j \in i..(Len(t) + 1) :
      /\ j > Len(t) \/ P(Ch(t, j))
      /\ \A k \in i..(j - 1) : ~P(Ch(t, k))

BlankEnd(t, i) == First(t, i, LAMBDA c : c \notin Blank)
DigitsEnd(t, i) == First(t, i, LAMBDA c : c \notin Digit)

(* The position of the first occurrence of pattern s from i on, 0 if none. *)
At(t, i, s) == i + Len(s) - 1 <= Len(t) /\ SubSeq(t, i, i + Len(s) - 1) = s
Find(t, i, s) ==
  LET n == Len(t) - Len(s) + 1
      j == IF i > n THEN n + 1 ELSE
             CHOOSE j \in i..(n + 1) :
                /\ j > n \/ SubSeq(t, j, j + Len(s) - 1) = s
                /\ \A k \in i..(j - 1) : SubSeq(t, k, k + Len(s) - 1) # s
  IN IF j > n THEN 0 ELSE j

(* Blanks and comments between tokens.  An unclosed comment is not one.    *)
RECURSIVE Skip(_, _)
Skip(t, i) ==
  LET j == BlankEnd(t, i)
  IN IF Ch(t, j) # "/" THEN j
     ELSE IF Ch(t, j + 1) = "/" THEN Skip(t, First(t, j + 2, LAMBDA c : c \in Newline))
     ELSE IF Ch(t, j + 1) = "*" THEN
            LET k == Find(t, j + 2, "*/") IN IF k = 0 THEN j ELSE Skip(t, k + 2)
     ELSE j

(* A keyword (given in lower case) in any letter case.                     *)
Kw(t, i, s) ==
  IF \A k \in 1..Len(s) : ToLower(Ch(t, i + k - 1)) = SubSeq(s, k, k) THEN i + Len(s) ELSE 0

VarEnd(t, i) ==
  IF Ch(t, i) \notin Alpha THEN 0 ELSE First(t, i + 1, LAMBDA c : c \notin Word)

(* Words separated by single spaces, as in 'not null'.                     *)
SpacedEnd(t, i) ==
  IF Ch(t, i) \notin Alpha THEN 0
  ELSE CHOOSE j \in (i + 1)..(Len(t) + 1) :
         LET stop(x) == ~(Ch(t, x) \in Word \/ (Ch(t, x) = " " /\ Ch(t, x + 1) \in Word))
         IN stop(j) /\ \A k \in (i + 1)..(j - 1) : ~stop(k)

(* ---- numbers, kept as digit strings because TLC integers have 32 bits -- *)
StripZeros(s) ==      \* leading zeros; the empty string is zero
  LET k == First(s, 1, LAMBDA c : c # "0") IN SubSeq(s, k, Len(s))
CanonInt(s) == LET z == StripZeros(s) IN IF z = "" THEN "0" ELSE z
RECURSIVE StripTail(_)
StripTail(s) == IF Len(s) > 0 /\ SubSeq(s, Len(s), Len(s)) = "0"
                THEN StripTail(SubSeq(s, 1, Len(s) - 1)) ELSE s
CanonDec(int, frac) == LET f == StripTail(frac)
                       IN IF f = "" THEN CanonInt(int) ELSE CanonInt(int) \o "." \o f
(* Order of two canonical digit strings.                                   *)
NumLeq(a, b) ==
  \/ Len(a) < Len(b)
  \/ /\ Len(a) = Len(b)
     /\ \/ a = b
        \/ \E k \in 1..Len(a) :
             /\ DigitVal[SubSeq(a, k, k)] < DigitVal[SubSeq(b, k, k)]
             /\ SubSeq(a, 1, k - 1) = SubSeq(b, 1, k - 1)
MaxI64 == "9223372036854775807"
MaxU32 == "4294967295"
MaxI32 == "2147483647"
MaxI16 == "32767"
=============================================================================
