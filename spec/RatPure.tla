------------------------------- MODULE RatPure -------------------------------
(* Pure TLA+ rationals: <<n, d>> with d > 0 and gcd(n,d) = 1.  This is the    *)
(* mathematical definition of the operators of Rat; TLC evaluates Rat with a  *)
(* Java override (arbitrary precision) and MC_Rat compares the two.           *)
EXTENDS Integers, Sequences, TLC

PAbs(n) == IF n < 0 THEN -n ELSE n

RECURSIVE GCD(_, _)
GCD(a, b) == IF b = 0 THEN a ELSE GCD(b, a % b)

PMk(n, d) ==
  LET s == IF d < 0 THEN -1 ELSE 1
      g == GCD(PAbs(n), PAbs(d))
  IN  IF g = 0 THEN <<0, 1>> ELSE <<(s * n) \div g, (s * d) \div g>>

PAdd(a, b) == PMk(a[1] * b[2] + b[1] * a[2], a[2] * b[2])
PSub(a, b) == PMk(a[1] * b[2] - b[1] * a[2], a[2] * b[2])
PMul(a, b) == PMk(a[1] * b[1], a[2] * b[2])
PDiv(a, b) == PMk(a[1] * b[2], a[2] * b[1])
PNeg(a) == <<-a[1], a[2]>>
PSign(a) == IF a[1] < 0 THEN -1 ELSE IF a[1] > 0 THEN 1 ELSE 0

(* Two decimals, half away from zero, no minus sign on zero. *)
PShow2(a) ==
  LET q == (PAbs(a[1]) * 200 + a[2]) \div (2 * a[2])
      f == q % 100
  IN  (IF a[1] < 0 /\ q # 0 THEN "-" ELSE "")
        \o ToString(q \div 100) \o "." \o (IF f < 10 THEN "0" ELSE "") \o ToString(f)

(* The string representation used by Rat. *)
PStr(a) == IF a[2] = 1 THEN ToString(a[1]) ELSE ToString(a[1]) \o "/" \o ToString(a[2])
==============================================================================
