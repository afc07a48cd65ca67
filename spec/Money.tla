-------------------------------- MODULE Money --------------------------------
(* Multi-commodity balances: functions from commodity keys to non-zero        *)
(* rationals.  The empty function is the zero balance.                        *)
EXTENDS Rat, FiniteSets, TLC

NoBal == [c \in {} |-> RZero]

Get(b, c) == IF c \in DOMAIN b THEN b[c] ELSE RZero

Drop0(b) == LET D == {c \in DOMAIN b : ~RIsZero(b[c])} IN
            IF D = DOMAIN b THEN b ELSE [c \in D |-> b[c]]

(* b plus the amount m = [q, c] *)
BAdd1(b, m) ==
  IF RIsZero(m.q) THEN b
  ELSE LET q == RAdd(Get(b, m.c), m.q)
       IN  IF RIsZero(q) THEN [c \in DOMAIN b \ {m.c} |-> b[c]]
           ELSE [c \in DOMAIN b \cup {m.c} |-> IF c = m.c THEN q ELSE b[c]]

BAdd(a, b) == Drop0([c \in DOMAIN a \cup DOMAIN b |-> RAdd(Get(a, c), Get(b, c))])
BNeg(a) == [c \in DOMAIN a |-> RNeg(a[c])]
BSub(a, b) == BAdd(a, BNeg(b))
BIsZero(b) == DOMAIN b = {}

RECURSIVE BSum(_)            \* of a sequence of amounts
BSum(ms) == IF ms = <<>> THEN NoBal ELSE BAdd1(BSum(SubSeq(ms, 1, Len(ms) - 1)), ms[Len(ms)])

RECURSIVE BSumB(_)           \* of a sequence of balances
BSumB(bs) == IF bs = <<>> THEN NoBal ELSE BAdd(bs[1], BSumB(Tail(bs)))

(* A remainder that is zero or can be an implicit exchange. *)
Balanced(b) ==
  \/ BIsZero(b)
  \/ (\E c \in DOMAIN b : RSign(b[c]) > 0) /\ (\E c \in DOMAIN b : RSign(b[c]) < 0)

Money(q, c) == [q |-> q, c |-> c]
==============================================================================
