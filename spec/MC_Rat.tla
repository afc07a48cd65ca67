-------------------------------- MODULE MC_Rat --------------------------------
(* The Java override of Rat agrees with the pure definitions of RatPure.       *)
EXTENDS Rat, RatPure, FiniteSets
CONSTANTS MaxN, MaxD
VARIABLES a, b
Dom == {PMk(n, d) : n \in (-MaxN)..MaxN, d \in 1..MaxD}
Init == a \in Dom /\ b \in Dom
Next == UNCHANGED <<a, b>>
Agree ==
  LET A == PStr(a)
      B == PStr(b)
  IN  /\ RAdd(A, B) = PStr(PAdd(a, b))
      /\ RSub(A, B) = PStr(PSub(a, b))
      /\ RMul(A, B) = PStr(PMul(a, b))
      /\ (b[1] # 0 => RDiv(A, B) = PStr(PDiv(a, b)))
      /\ RNeg(A) = PStr(PNeg(a))
      /\ RSign(A) = PSign(a)
      /\ RShow(A, 2) = PShow2(a)
      /\ RDec(RShow(A, 2)) = LET q == (PAbs(a[1]) * 200 + a[2]) \div (2 * a[2])
                             IN  PStr(PMk(IF a[1] < 0 THEN -q ELSE q, 100))
===============================================================================
