------------------------------ MODULE TextPure -------------------------------
(* Text operations on strings: case folding, components, order, and the small *)
(* regular-expression language used by queries, payee aliases and tag tests.  *)
(* TLC evaluates these through the Java overrides of Text; MC_Text compares.    *)
EXTENDS Integers, Sequences, FiniteSets

Ch(s, i) == SubSeq(s, i, i)

(* Alphabet, in code point order (what byte-wise comparison of UTF-8 gives).  *)
Alphabet ==
  " !\"#$%&'()*+,-./0123456789:;<=>?@ABCDEFGHIJKLMNOPQRSTUVWXYZ[\\]^_`abcdefghijklmnopqrstuvwxyz{|}~£ÁÄÉÍÑÓÖÚÜáäéíñóöúüŽž€"
Upper26 == "ABCDEFGHIJKLMNOPQRSTUVWXYZÁÄÉÍÑÓÖÚÜŽ"
Lower26 == "abcdefghijklmnopqrstuvwxyzáäéíñóöúüž"

RECURSIVE IndexIn(_, _, _)
IndexIn(c, s, i) == IF i > Len(s) THEN 0 ELSE IF Ch(s, i) = c THEN i ELSE IndexIn(c, s, i + 1)

Ord(c) == LET i == IndexIn(c, Alphabet, 1) IN IF i = 0 THEN 1000 ELSE i
LowCh(c) == LET i == IndexIn(c, Upper26, 1) IN IF i = 0 THEN c ELSE Ch(Lower26, i)

RECURSIVE LowerFrom(_, _)
LowerFrom(s, i) == IF i > Len(s) THEN "" ELSE LowCh(Ch(s, i)) \o LowerFrom(s, i + 1)
Lower(s) == LowerFrom(s, 1)

(* Strict lexicographic order. *)
RECURSIVE LessFrom(_, _, _)
LessFrom(a, b, i) ==
  IF i > Len(b) THEN FALSE
  ELSE IF i > Len(a) THEN TRUE
  ELSE IF Ch(a, i) = Ch(b, i) THEN LessFrom(a, b, i + 1)
  ELSE Ord(Ch(a, i)) < Ord(Ch(b, i))
StrLess(a, b) == LessFrom(a, b, 1)

StartsWith(s, p) == Len(s) >= Len(p) /\ SubSeq(s, 1, Len(p)) = p
EndsWith(s, p) == Len(s) >= Len(p) /\ SubSeq(s, Len(s) - Len(p) + 1, Len(s)) = p

(* Components of s separated by the character sep. *)
RECURSIVE SplitFrom(_, _, _, _)
SplitFrom(s, sep, start, i) ==
  IF i > Len(s) THEN <<SubSeq(s, start, Len(s))>>
  ELSE IF Ch(s, i) = sep THEN <<SubSeq(s, start, i - 1)>> \o SplitFrom(s, sep, i + 1, i + 1)
  ELSE SplitFrom(s, sep, start, i + 1)
Split(s, sep) == SplitFrom(s, sep, 1, 1)

RECURSIVE Join(_, _)
Join(cs, sep) == IF Len(cs) = 0 THEN "" ELSE IF Len(cs) = 1 THEN cs[1]
                 ELSE cs[1] \o sep \o Join(Tail(cs), sep)

MinStr(S) == CHOOSE x \in S : \A y \in S : y = x \/ StrLess(x, y)

------------------------------------------------------------------------------
(* Regular expressions: literals, '.', 'x*', '^', '$', '\x' and top-level '|'. *)
RECURSIVE HereFrom(_, _, _, _)
HereFrom(re, i, s, j) ==
  IF i > Len(re) THEN TRUE
  ELSE
    LET esc == Ch(re, i) = "\\" /\ i < Len(re)
        c == IF esc THEN Ch(re, i + 1) ELSE Ch(re, i)
        n == IF esc THEN i + 2 ELSE i + 1
        one(k) == k <= Len(s) /\ (IF ~esc /\ c = "." THEN TRUE ELSE Ch(s, k) = c)
    IN  IF n <= Len(re) /\ Ch(re, n) = "*"
        THEN HereFrom(re, n + 1, s, j) \/ (one(j) /\ HereFrom(re, i, s, j + 1))
        ELSE IF ~esc /\ c = "$" /\ i = Len(re) THEN j = Len(s) + 1
        ELSE one(j) /\ HereFrom(re, n, s, j + 1)

MatchAlt(re, s) ==
  IF Len(re) > 0 /\ Ch(re, 1) = "^" THEN HereFrom(re, 2, s, 1)
  ELSE \E j \in 1..(Len(s) + 1) : HereFrom(re, 1, s, j)

(* ci: ignore case *)
Matches(re, ci, s) ==
  LET r == IF ci THEN Lower(re) ELSE re
      t == IF ci THEN Lower(s) ELSE s
      alts == Split(r, "|")
  IN  \E k \in 1..Len(alts) : MatchAlt(alts[k], t)
------------------------------------------------------------------------------
Blank(c) == c \in {" ", "\t"}
RECURSIVE RTrim(_)
RTrim(s) == IF Len(s) > 0 /\ Blank(Ch(s, Len(s))) THEN RTrim(SubSeq(s, 1, Len(s) - 1)) ELSE s
RECURSIVE LTrim(_)
LTrim(s) == IF Len(s) > 0 /\ Blank(Ch(s, 1)) THEN LTrim(SubSeq(s, 2, Len(s))) ELSE s
==============================================================================
