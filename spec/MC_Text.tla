------------------------------- MODULE MC_Text -------------------------------
(* The Java override of Text agrees with TextPure on all strings s and t over   *)
(* the given characters, up to lengths LenS and LenT.                           *)
EXTENDS Text
CONSTANTS CharsS, CharsT, LenS, LenT
Q == INSTANCE TextPure
VARIABLES s, t
RECURSIVE Words(_, _)
Words(C, n) == IF n = 0 THEN {""} ELSE LET W == Words(C, n - 1) IN W \cup {w \o c : w \in W, c \in C}
Init == s \in Words(CharsS, LenS) /\ t \in Words(CharsT, LenT)
Next == UNCHANGED <<s, t>>
Agree ==
  /\ Lower(s) = Q!Lower(s)
  /\ StrLess(s, t) = Q!StrLess(s, t)
  /\ StrLess(t, s) = Q!StrLess(t, s)
  /\ StartsWith(s, t) = Q!StartsWith(s, t)
  /\ EndsWith(s, t) = Q!EndsWith(s, t)
  /\ Split(s, ":") = Q!Split(s, ":")
  /\ IndexIn(":", s, 1) = Q!IndexIn(":", s, 1)
  /\ \A ci \in BOOLEAN : Matches(t, ci, s) = Q!Matches(t, ci, s)
  /\ RTrim(s) = Q!RTrim(s)
  /\ LTrim(s) = Q!LTrim(s)
==============================================================================
