-------------------------------- MODULE Text ---------------------------------
(* Text operations.  Their meaning is TextPure; TLC replaces the operators     *)
(* below by the Java class Text, which the model MC_Text compares with          *)
(* TextPure on all short strings of an alphabet.                               *)
EXTENDS Integers, Sequences, FiniteSets
LOCAL TP == INSTANCE TextPure

Ch(s, i) == SubSeq(s, i, i)
Blank(c) == c \in {" ", "\t"}

Lower(s) == TP!Lower(s)
StrLess(a, b) == TP!StrLess(a, b)
StartsWith(s, p) == TP!StartsWith(s, p)
EndsWith(s, p) == TP!EndsWith(s, p)
IndexIn(c, s, i) == TP!IndexIn(c, s, i)
Split(s, sep) == TP!Split(s, sep)
Matches(re, ci, s) == TP!Matches(re, ci, s)
RTrim(s) == TP!RTrim(s)
LTrim(s) == TP!LTrim(s)

MinStr(S) == CHOOSE x \in S : \A y \in S : y = x \/ StrLess(x, y)
==============================================================================
