------------------------------- MODULE Reports -------------------------------
(* What the reports show of a loaded ledger.                                  *)
(*                                                                            *)
(* Options of a report: [b, e (<<>> or <<date>>), real, q (query terms),        *)
(* flat, depth (0: none), x ("" or commodity), total].                        *)
EXTENDS Dinero

Selects(o, qe, t, p) ==
  IF o.real /\ p.k # "R" THEN "no"
  ELSE IF o.e # <<>> /\ t.d >= Ordinal(o.e[1]) THEN "no"
  ELSE IF o.b # <<>> /\ t.d < Ordinal(o.b[1]) THEN "no"
  ELSE Holds(qe, CtxOf(t, t.ps, p))

(* Per transaction, the verdict on each posting. *)
SelTab(o) ==
  LET qe == QueryExpr(o.q)
  IN  [i \in 1..Len(txns) |-> [j \in 1..Len(txns[i].ps) |-> Selects(o, qe, txns[i], txns[i].ps[j])]]
SelErr(st) == \E i \in DOMAIN st : \E j \in DOMAIN st[i] : st[i][j] = "err"

(* The selected postings of transaction i / of all, in order. *)
RECURSIVE PickFrom(_, _, _)
PickFrom(ps, v, j) == IF j > Len(ps) THEN <<>>
                      ELSE (IF v[j] = "yes" THEN <<ps[j]>> ELSE <<>>) \o PickFrom(ps, v, j + 1)
Picked(st, i) == PickFrom(txns[i].ps, st[i], 1)
AllPicked(st) == FlatSeq([i \in 1..Len(txns) |-> Picked(st, i)])

(* Sums per account name of a sequence of postings. *)
AddTo(f, a, m) ==
  [x \in DOMAIN f \cup {a} |->
     LET old == IF x \in DOMAIN f THEN f[x] ELSE NoBal IN IF x = a THEN BAdd1(old, m) ELSE old]
RECURSIVE SumBy(_, _)
SumBy(ps, i) == IF i = 0 THEN [a \in {} |-> NoBal] ELSE AddTo(SumBy(ps, i - 1), ps[i].a, ps[i].amt[1])
AccountSums(ps) == SumBy(ps, Len(ps))
TotalOf(ps) == BSum([i \in 1..Len(ps) |-> ps[i].amt[1]])

SumOver(f, A) == LET s == SeqOf(A) IN BSumB([i \in 1..Len(s) |-> f[s[i]]])
NonZero(f) == LET D == {a \in DOMAIN f : ~BIsZero(f[a])} IN [a \in D |-> f[a]]

Comps(a) == Split(a, ":")
Cut(cs, n) == IF n > 0 /\ Len(cs) > n THEN SubSeq(cs, 1, n) ELSE cs
IsPrefix2(p, s) == Len(p) <= Len(s) /\ SubSeq(s, 1, Len(p)) = p

(* Flat report: account components |-> balance.                               *)
FlatReport(sums, depth) ==
  LET cs == [a \in DOMAIN sums |-> Cut(Comps(a), depth)]
      keys == {cs[a] : a \in DOMAIN sums}
  IN  NonZero([k \in keys |-> SumOver(sums, {a \in DOMAIN sums : cs[a] = k})])

(* Tree: every account and ancestor with its subtotal, within depth. *)
TreeSums(sums, depth) ==
  LET cs == [a \in DOMAIN sums |-> Comps(a)]
      nodes == UNION {{SubSeq(cs[a], 1, n) : n \in 1..Len(cs[a])} : a \in DOMAIN sums}
      in == {n \in nodes : depth = 0 \/ Len(n) <= depth}
  IN  NonZero([n \in in |-> SumOver(sums, {a \in DOMAIN sums : IsPrefix2(n, cs[a])})])

(* A node is merged into the line of its only shown child when that has all of  *)
(* its balance.                                                                 *)
Below(S, n) == {m \in S : m # n /\ IsPrefix2(n, m)}
Merged(f, n) ==
  \E m \in Below(DOMAIN f, n) :
     /\ \A x \in Below(DOMAIN f, n) : IsPrefix2(m, x)
     /\ f[m] = f[n]
TreeLines(f) == [n \in {n \in DOMAIN f : ~Merged(f, n)} |-> f[n]]

------------------------------------------------------------------------------
(* Conversion with -X: the latest price of each pair of commodities up to day   *)
(* today; a commodity may be converted along any chain of these.               *)
Pair(p) == {p.c, p.to}
Known(today) == {i \in 1..Len(prices) : Ordinal(prices[i].date) <= today /\ prices[i].c # prices[i].to}
LatestOf(today) ==
  {i \in Known(today) :
     \A j \in Known(today) : Pair(prices[j]) = Pair(prices[i]) => Ordinal(prices[j].date) <= Ordinal(prices[i].date)}

(* All rates from commodity c to target x over edges E, not revisiting V. *)
RECURSIVE Rates(_, _, _, _)
Rates(c, x, E, V) ==
  IF c = x THEN {ROne}
  ELSE UNION {
    LET p == prices[i]
        other == CHOOSE o \in Pair(p) : o # c
        r == IF p.c = c THEN p.q ELSE RDiv(ROne, p.q)
    IN  {RMul(r, s) : s \in Rates(other, x, E, V \cup {c})}
    : i \in {i \in E : c \in Pair(prices[i]) /\ (Pair(prices[i]) \ {c}) \cap V = {}
                       /\ (prices[i].c = c \/ ~RIsZero(prices[i].q))}}

(* The possible rates of every commodity in C; {} if not linked to x. *)
RateSets(C, x, today) ==
  LET E == LatestOf(today)
  IN  [c \in C |-> Rates(c, x, E, {})]

(* Balance b converted with rates r (commodity |-> <<>> or <<rate>>). *)
Convert(b, x, r) ==
  LET s == SeqOf(DOMAIN b)
  IN  BSum([i \in 1..Len(s) |->
         IF r[s[i]] = <<>> THEN Money(b[s[i]], s[i]) ELSE Money(RMul(b[s[i]], r[s[i]][1]), x)])
==============================================================================
