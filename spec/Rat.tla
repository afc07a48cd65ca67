--------------------------------- MODULE Rat ---------------------------------
(* Exact rational arithmetic on canonical strings "n" or "n/d" (d > 1).       *)
(* The bodies below only fix the arity: TLC replaces these operators by the   *)
(* Java class Rat.  Their meaning is RatPure, modulo the representation PStr, *)
(* and the model MC_Rat checks that agreement exhaustively on a finite domain.*)
EXTENDS Integers, Sequences

RAdd(a, b) == CHOOSE r \in STRING : TRUE
RSub(a, b) == CHOOSE r \in STRING : TRUE
RMul(a, b) == CHOOSE r \in STRING : TRUE
RDiv(a, b) == CHOOSE r \in STRING : TRUE
RNeg(a)    == CHOOSE r \in STRING : TRUE
RSign(a)   == CHOOSE r \in Int : TRUE
RDec(s)    == CHOOSE r \in STRING : TRUE
RShow(a,k) == CHOOSE r \in STRING : TRUE

RZero == "0"
ROne  == "1"
RIsZero(a) == RSign(a) = 0
RAbs(a) == IF RSign(a) < 0 THEN RNeg(a) ELSE a
RLess(a, b) == RSign(RSub(a, b)) < 0
RLeq(a, b)  == RSign(RSub(a, b)) <= 0

RECURSIVE RSumSeq(_)
RSumSeq(s) == IF s = <<>> THEN RZero ELSE RAdd(s[1], RSumSeq(Tail(s)))
==============================================================================
