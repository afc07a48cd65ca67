--------------------------------- MODULE Expr --------------------------------
(* Value expressions and query terms.                                         *)
(*                                                                            *)
(* An expression is a tree: [o |-> operator, ...].  Leaves: amount, account,  *)
(* payee, note, date, num (q), money (q, c), re (s, ci), str (s), dt (d).      *)
(* Inner nodes: neg, not, abs, any, has_tag, tag, to_date with child x;       *)
(* + - * / == != =~ < > <= >= and or with children l and r.  junk (s) is text  *)
(* that is no expression.                                                      *)
(*                                                                            *)
(* ctx describes the posting at hand: [p |-> posting, t |-> transaction,       *)
(* ps |-> all postings of the transaction, ck |-> commodity table].       *)
EXTENDS Money, Names, Cal

VErr == [t |-> "err"]
VNum(q) == [t |-> "num", q |-> q]
VMon(q, c) == [t |-> "money", q |-> q, c |-> c]
VBool(b) == [t |-> "bool", b |-> b]

(* The tags of a posting whose name matches, in order. *)
TagHits(p, re, ci) == SelectSeq(p.tags, LAMBDA x : Matches(re, ci, x.n))
TagExact(p, s) == SelectSeq(p.tags, LAMBDA x : x.n = s)
TagVal(hits) == [t |-> "str", o |-> IF hits = <<>> THEN <<>> ELSE hits[1].v]

IsZeroMoney(v) == RIsZero(v.q) /\ v.c = ""

VCmp(l, r) ==    \* -1, 0, 1, or 9 when not comparable, 99 on error
  LET sg(a, b) == RSign(RSub(a, b))
  IN  CASE l.t = "num" /\ r.t \in {"num", "money"} -> sg(l.q, r.q)
        [] l.t = "money" /\ r.t = "num" -> sg(l.q, r.q)
        [] l.t = "money" /\ r.t = "money" ->
             IF l.c = r.c \/ IsZeroMoney(l) \/ IsZeroMoney(r) THEN sg(l.q, r.q) ELSE 99
        [] l.t = "date" /\ r.t = "date" -> (IF l.d < r.d THEN -1 ELSE IF l.d > r.d THEN 1 ELSE 0)
        [] OTHER -> 9

VEq(l, r) ==
  CASE r.t = "re" ->
        (CASE l.t = "acc" -> VBool(Matches(r.s, r.ci, l.s))
           [] l.t = "payee" -> VBool(Matches(r.s, r.ci, l.s))
           [] l.t = "str" -> VBool(l.o # <<>> /\ Matches(r.s, r.ci, l.o[1]))
           [] l.t = "note" -> VBool(\E i \in 1..Len(l.cs) : Matches(r.s, r.ci, l.cs[i]))
           [] OTHER -> VErr)
    [] r.t \in {"num", "money"} /\ l.t \in {"num", "money"} /\ "num" \in {l.t, r.t} ->
         VBool(RIsZero(RSub(l.q, r.q)))
    [] r.t = "money" /\ l.t = "money" ->
         VBool(RIsZero(RSub(l.q, r.q)) /\ (l.c = r.c \/ IsZeroMoney(l) \/ IsZeroMoney(r)))
    [] r.t = "bool" /\ l.t = "bool" -> VBool(l.b = r.b)
    [] r.t = "str" /\ l.t = "str" -> VBool(l.o = r.o)
    [] r.t = "date" /\ l.t = "date" -> VBool(l.d = r.d)
    [] OTHER -> VErr

VAddSub(op, l, r) ==
  LET f(a, b) == IF op = "+" THEN RAdd(a, b) ELSE RSub(a, b)
  IN  CASE l.t = "num" /\ r.t = "num" -> VNum(f(l.q, r.q))
        [] l.t = "money" /\ r.t = "money" ->
             (LET b == BAdd(BSum(<<Money(l.q, l.c)>>),
                            BSum(<<Money(IF op = "+" THEN r.q ELSE RNeg(r.q), r.c)>>))
              IN  IF Cardinality(DOMAIN b) = 0 THEN VMon(RZero, "")
                  ELSE IF Cardinality(DOMAIN b) = 1
                       THEN (LET c == CHOOSE c \in DOMAIN b : TRUE IN VMon(b[c], c))
                  ELSE VErr)
        [] OTHER -> VErr

VMulDiv(op, l, r) ==
  CASE r.t = "num" /\ l.t \in {"num", "money"} /\ op = "/" /\ RIsZero(r.q) -> VErr
    [] l.t = "num" /\ r.t = "num" -> VNum(IF op = "*" THEN RMul(l.q, r.q) ELSE RDiv(l.q, r.q))
    [] l.t = "num" /\ r.t = "money" -> IF op = "*" THEN VMon(RMul(l.q, r.q), r.c) ELSE VErr
    [] l.t = "money" /\ r.t = "num" -> VMon(IF op = "*" THEN RMul(l.q, r.q) ELSE RDiv(l.q, r.q), l.c)
    [] OTHER -> VErr

RECURSIVE Eval(_, _)
Eval(e, ctx) ==
  CASE e.o = "amount" -> VMon(ctx.p.amt[1].q, ctx.p.amt[1].c)
    [] e.o = "account" -> [t |-> "acc", s |-> ctx.p.an]
    [] e.o = "payee" -> [t |-> "payee", s |-> ctx.p.pn]
    [] e.o = "note" -> [t |-> "note", cs |-> ctx.t.notes]
    [] e.o = "date" -> [t |-> "date", d |-> ctx.t.d]
    [] e.o = "junk" -> VErr
    [] e.o = "num" -> VNum(RDec(e.q))
    [] e.o = "money" -> VMon(RDec(e.q), KeyOf(ctx.ck, e.c))
    [] e.o = "re" -> [t |-> "re", s |-> e.s, ci |-> e.ci]
    [] e.o = "str" -> [t |-> "str", o |-> <<e.s>>]
    [] e.o = "dt" -> IF ValidDate(e.d) THEN [t |-> "date", d |-> Ordinal(e.d)] ELSE VErr
    [] e.o \in {"neg", "not", "abs", "has_tag", "tag"} ->
         (LET x == Eval(e.x, ctx) IN
          CASE x.t = "err" -> VErr
            [] e.o = "neg" -> (CASE x.t = "num" -> VNum(RNeg(x.q))
                                 [] x.t = "money" -> VMon(RNeg(x.q), x.c)
                                 [] x.t = "bool" -> VBool(~x.b)
                                 [] OTHER -> VErr)
            [] e.o = "abs" -> (CASE x.t = "num" -> VNum(RAbs(x.q))
                                 [] x.t = "money" -> VMon(RAbs(x.q), x.c)
                                 [] OTHER -> VErr)
            [] e.o = "not" -> IF x.t = "bool" THEN VBool(~x.b) ELSE VErr
            [] e.o = "has_tag" -> IF x.t = "re" THEN VBool(TagHits(ctx.p, x.s, x.ci) # <<>>) ELSE VErr
            [] OTHER -> (CASE x.t = "re" -> TagVal(TagHits(ctx.p, x.s, x.ci))
                           [] x.t = "str" /\ x.o # <<>> -> TagVal(TagExact(ctx.p, x.o[1]))
                           [] OTHER -> VErr))
    [] e.o = "any" ->
         (LET vs == [i \in 1..Len(ctx.ps) |-> Eval(e.x, [ctx EXCEPT !.p = ctx.ps[i]])]
              hit == {i \in 1..Len(vs) : vs[i].t = "bool" /\ vs[i].b}
              bad == {i \in 1..Len(vs) : vs[i].t # "bool"}
          IN  IF Eval(e.x, ctx).t = "err" THEN VErr
              ELSE IF hit # {} THEN
                (LET h == CHOOSE i \in hit : \A j \in hit : i <= j
                 IN  IF \E b \in bad : b < h THEN VErr ELSE VBool(TRUE))
              ELSE IF bad # {} THEN VErr ELSE VBool(FALSE))
    [] OTHER ->
         (LET l == Eval(e.l, ctx)
              r == Eval(e.r, ctx)
          IN  IF l.t = "err" \/ r.t = "err" THEN VErr
              ELSE
              CASE e.o \in {"==", "=~"} -> VEq(l, r)
                [] e.o = "!=" -> (LET v == VEq(l, r) IN IF v.t = "bool" THEN VBool(~v.b) ELSE VErr)
                [] e.o \in {"<", ">", "<=", ">="} ->
                     (LET k == VCmp(l, r) IN
                      IF k = 99 THEN VErr
                      ELSE VBool(CASE e.o = "<" -> k = -1
                                   [] e.o = ">" -> k = 1
                                   [] e.o = "<=" -> k \in {-1, 0}
                                   [] OTHER -> k \in {0, 1}))
                [] e.o \in {"+", "-"} -> VAddSub(e.o, l, r)
                [] e.o \in {"*", "/"} -> VMulDiv(e.o, l, r)
                [] e.o = "and" -> IF l.t # "bool" THEN VErr ELSE IF ~l.b THEN VBool(FALSE)
                                  ELSE IF r.t # "bool" THEN VErr ELSE r
                [] e.o = "or" -> IF l.t # "bool" THEN VErr ELSE IF l.b THEN VBool(TRUE)
                                 ELSE IF r.t # "bool" THEN VErr ELSE r
                [] OTHER -> VErr)

------------------------------------------------------------------------------
(* Query terms: a sequence of [k |-> kind, ...] with kinds                     *)
(*   "and" "or"  connectives                                                  *)
(*   "acc" (s)   account contains s, ignoring case; "re" (s) case-sensitive    *)
(*   "pay" (s)   payee, "tag" (s) tag name, ignoring case; "expr" (e)          *)
Leaf(x) == [o |-> x]
TermExpr(x) ==
  CASE x.k = "acc" -> [o |-> "=~", l |-> Leaf("account"), r |-> [o |-> "re", s |-> x.s, ci |-> TRUE]]
    [] x.k = "re" -> [o |-> "=~", l |-> Leaf("account"), r |-> [o |-> "re", s |-> x.s, ci |-> FALSE]]
    [] x.k = "pay" -> [o |-> "=~", l |-> Leaf("payee"), r |-> [o |-> "re", s |-> x.s, ci |-> TRUE]]
    [] x.k = "tag" -> [o |-> "has_tag", x |-> [o |-> "re", s |-> x.s, ci |-> TRUE]]
    [] OTHER -> x.e

(* The query as groups (joined by or) of terms (joined by and). *)
RECURSIVE Groups(_, _, _)
Groups(q, i, acc) ==       \* acc: sequence of sequences of terms
  IF i > Len(q) THEN acc
  ELSE IF q[i].k \in {"and", "or"} THEN Groups(q, i + 1, acc)
  ELSE LET conj == i > 1 /\ q[i - 1].k = "and" /\ acc # <<>>
       IN  Groups(q, i + 1, IF conj THEN [acc EXCEPT ![Len(acc)] = Append(@, TermExpr(q[i]))]
                            ELSE Append(acc, <<TermExpr(q[i])>>))

RECURSIVE AndAll(_)
AndAll(es) == IF Len(es) = 1 THEN es[1]
              ELSE [o |-> "and", l |-> AndAll(SubSeq(es, 1, Len(es) - 1)), r |-> es[Len(es)]]
RECURSIVE OrAll(_)
OrAll(es) == IF Len(es) = 1 THEN es[1]
             ELSE [o |-> "or", l |-> OrAll(SubSeq(es, 1, Len(es) - 1)), r |-> es[Len(es)]]

(* <<>> for the empty query, else <<expression>> *)
QueryExpr(q) ==
  LET g == Groups(q, 1, <<>>)
  IN  IF g = <<>> THEN <<>> ELSE <<OrAll([i \in 1..Len(g) |-> AndAll(g[i])])>>

(* Does the posting satisfy the query?  "yes", "no" or "err". *)
Holds(qe, ctx) ==
  IF qe = <<>> THEN "yes"
  ELSE LET v == Eval(qe[1], ctx)
       IN  IF v.t # "bool" THEN "err" ELSE IF v.b THEN "yes" ELSE "no"
==============================================================================
