--------------------------------- MODULE Lex ---------------------------------
(* From what is written to what it means: comments to tags, decimal literals  *)
(* to rationals, and the text after an account name to amount, cost and        *)
(* balance.                                                                    *)
EXTENDS Money, Text, Cal

(* The tags of a comment: ":a:b:" at its end, or "name: value". *)
TagsOf(c) ==
  LET t == RTrim(c)
      i == IndexIn(":", t, 1)
      flags == i > 0 /\ Len(t) - i >= 2 /\ Ch(t, Len(t)) = ":"
      parts == Split(c, ":")
  IN  IF flags
      THEN LET fs == Split(SubSeq(t, i + 1, Len(t) - 1), ":")
           IN  [k \in 1..Len(fs) |-> [n |-> fs[k], v |-> <<>>]]
      ELSE IF Len(parts) = 2
      THEN <<[n |-> LTrim(parts[1]), v |-> <<RTrim(LTrim(parts[2]))>>]>>
      ELSE <<>>

RECURSIVE TagsOfAll(_, _)
TagsOfAll(cs, i) == IF i > Len(cs) THEN <<>> ELSE TagsOf(cs[i]) \o TagsOfAll(cs, i + 1)

------------------------------------------------------------------------------
(* Amount texts.  ReadMoney(s) reads one amount at the start of s (no leading  *)
(* blanks): [ok, q, c, rest].                                                  *)
Digits == {"0", "1", "2", "3", "4", "5", "6", "7", "8", "9"}
NumChars == Digits \cup {".", "-"}

RECURSIVE SpanNum(_, _)
SpanNum(s, i) == IF i <= Len(s) /\ Ch(s, i) \in NumChars THEN SpanNum(s, i + 1) ELSE i
RECURSIVE SpanWord(_, _)
SpanWord(s, i) ==
  IF i <= Len(s) /\ ~Blank(Ch(s, i)) /\ Ch(s, i) \notin NumChars /\ Ch(s, i) \notin {";", "\""}
  THEN SpanWord(s, i + 1) ELSE i
RECURSIVE SpanTo(_, _, _)
SpanTo(s, c, i) == IF i > Len(s) \/ Ch(s, i) = c THEN i ELSE SpanTo(s, c, i + 1)

NoMoney == [ok |-> FALSE, q |-> "", c |-> "", rest |-> ""]

(* A commodity at the start of s: quoted, or a word. *)
ReadCom(s) ==
  IF Len(s) > 0 /\ Ch(s, 1) = "\""
  THEN LET e == SpanTo(s, "\"", 2)
       IN  IF e > Len(s) THEN [ok |-> FALSE, c |-> "", rest |-> ""]
           ELSE [ok |-> TRUE, c |-> SubSeq(s, 2, e - 1), rest |-> LTrim(SubSeq(s, e + 1, Len(s)))]
  ELSE LET e == SpanWord(s, 1)
       IN  [ok |-> TRUE, c |-> SubSeq(s, 1, e - 1), rest |-> LTrim(SubSeq(s, e, Len(s)))]

ReadMoney(s) ==
  IF s = "" THEN NoMoney
  ELSE IF Ch(s, 1) \in NumChars
  THEN LET e == SpanNum(s, 1)
           q == RDec(SubSeq(s, 1, e - 1))
           r == LTrim(SubSeq(s, e, Len(s)))
           k == IF r # "" /\ Ch(r, 1) \in {"@", "=", ";"} THEN [ok |-> TRUE, c |-> "", rest |-> r]
                ELSE ReadCom(r)
       IN  IF q = "" \/ ~k.ok THEN NoMoney ELSE [ok |-> TRUE, q |-> q, c |-> k.c, rest |-> k.rest]
  ELSE LET k == ReadCom(s)
           e == SpanNum(k.rest, 1)
           q == RDec(SubSeq(k.rest, 1, e - 1))
       IN  IF ~k.ok \/ q = "" THEN NoMoney
           ELSE [ok |-> TRUE, q |-> q, c |-> k.c, rest |-> LTrim(SubSeq(k.rest, e, Len(k.rest)))]

(* AMOUNT? (@ COST | @@ COST)? (= BALANCE)? (; comment)?                        *)
NoTail == [ok |-> FALSE, amt |-> <<>>, cost |-> <<>>, asr |-> <<>>]
M(m) == <<[q |-> m.q, c |-> m.c]>>
ReadTail(raw) ==
  LET s0 == RTrim(LTrim(raw))
      hasAmt == s0 # "" /\ Ch(s0, 1) \notin {"=", "@", ";"}
      m0 == IF hasAmt THEN ReadMoney(s0) ELSE [NoMoney EXCEPT !.ok = TRUE, !.rest = s0]
      s1 == m0.rest
      hasCost == m0.ok /\ hasAmt /\ s1 # "" /\ Ch(s1, 1) = "@"
      tot == hasCost /\ Len(s1) > 1 /\ Ch(s1, 2) = "@"
      m1 == IF hasCost THEN ReadMoney(LTrim(SubSeq(s1, IF tot THEN 3 ELSE 2, Len(s1))))
            ELSE [NoMoney EXCEPT !.ok = m0.ok, !.rest = s1]
      s2 == m1.rest
      hasBal == m1.ok /\ s2 # "" /\ Ch(s2, 1) = "="
      m2 == IF hasBal THEN ReadMoney(LTrim(SubSeq(s2, 2, Len(s2))))
            ELSE [NoMoney EXCEPT !.ok = m1.ok, !.rest = s2]
      fin == m2.ok /\ (m2.rest = "" \/ Ch(m2.rest, 1) = ";")
  IN  IF ~fin THEN NoTail
      ELSE [ok |-> TRUE,
            amt |-> IF hasAmt THEN M(m0) ELSE <<>>,
            cost |-> IF hasCost THEN <<[t |-> IF tot THEN "T" ELSE "U", q |-> m1.q, c |-> m1.c]>> ELSE <<>>,
            asr |-> IF hasBal THEN M(m2) ELSE <<>>]
==============================================================================
