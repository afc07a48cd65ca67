-------------------------------- MODULE Props --------------------------------
(* What has to be true of every ledger that gets loaded, whatever the journal. *)
(* These are checked on all states of the models (MC) and again on every state *)
(* reached while recorded runs are validated (Trace).                          *)
EXTENDS Config

Ready == pc = "ready"
NT == Len(txns)
Reals(i) == Kind(txns[i].ps, "R")
WeightsOf(ps) == BSum([j \in 1..Len(ps) |-> Weight(ps[j])])
Amounts(ps) == BSum([j \in 1..Len(ps) |-> ps[j].amt[1]])
CountIf(s, Ok(_)) == Len(SelectSeq(s, Ok))

(* C01: real postings balance; no amount is left open *)
C01_Balanced == Ready => \A i \in 1..NT : Balanced(WeightsOf(Reals(i)))
C01_Complete == Ready => \A i \in 1..NT : \A p \in Rng(txns[i].ps) : p.amt # <<>>

(* C02: with an elided posting the transaction balances exactly, the elided    *)
(* account has one entry per commodity left over, none of them zero            *)
Fills(i) == SelectSeq(txns[i].ps, LAMBDA p : p.fill)
C02_Fill ==
  Ready => \A i \in 1..NT : Fills(i) # <<>> /\ led.autos = <<>> =>
    /\ BIsZero(WeightsOf(Reals(i)))
    /\ \A p \in Rng(Fills(i)) : ~RIsZero(p.amt[1].q) /\ p.a = Fills(i)[1].a
    /\ \A j, k \in 1..Len(Fills(i)) : j # k => Fills(i)[j].amt[1].c # Fills(i)[k].amt[1].c

(* The balance of account a after the first j postings of transaction i.        *)
RealTo(a, ps) == SelectSeq(ps, LAMBDA p : p.k = "R" /\ p.a = a)
BalanceAt(a, i, j) ==
  BAdd(BSumB([x \in 1..(i - 1) |-> Amounts(RealTo(a, txns[x].ps))]),
       Amounts(RealTo(a, SubSeq(txns[i].ps, 1, j))))

(* C03, C04: what is asserted or assigned is what the account holds there.      *)
C03_Assertions ==
  Ready /\ ~nc => \A i \in 1..NT : \A j \in 1..Len(txns[i].ps) :
    LET p == txns[i].ps[j]
    IN  p.k = "R" /\ p.asr # <<>> => AssertionHolds(BalanceAt(p.a, i, j), p.asr[1])

(* Balances kept while posting are sums of real postings. *)
C03_Running == Ready => \A a \in DOMAIN bal : bal[a] = BSumB([i \in 1..NT |-> Amounts(RealTo(a, txns[i].ps))])

(* C05: weights have the sign of the amount for positive costs *)
C05_Sign ==
  Ready => \A i \in 1..NT : \A p \in Rng(txns[i].ps) :
    p.cost # <<>> /\ RSign(p.cost[1].q) > 0 => RSign(Weight(p).q) = RSign(p.amt[1].q)

(* C06: bracketed postings balance among themselves *)
C06_Virtual == Ready => \A i \in 1..NT : Balanced(WeightsOf(Kind(txns[i].ps, "B")))

(* C09, C21: date order, journal order within a date *)
C09_Sorted == pc \in {"post", "auto", "ready"} => \A i \in 1..(NT - 1) : txns[i].d <= txns[i + 1].d

(* C16: one posting per match and automated posting, and none for another reason *)
C16_Once ==
  Ready => \A i \in 1..NT :
    LET t == txns[i]
        mine == SelectSeq(t.ps, LAMBDA p : p.or = "T")
    IN  (CountIf(t.ps, LAMBDA p : p.or = "A") > 0 => led.autos # <<>>)
        /\ CountIf(t.ps, LAMBDA p : p.or = "A") <=
             Len(mine) * CountIf(FlatSeq([k \in 1..Len(led.autos) |-> led.autos[k].ps]), LAMBDA p : TRUE)

(* C17: no price from anywhere else *)
Remainders == {i \in 1..NT : Fills(i) = <<>> /\ Cardinality(DOMAIN WeightsOf(Reals(i))) = 2}
Costs == CountIf(FlatSeq([i \in 1..Len(led.txns) |-> led.txns[i].ps]), LAMBDA p : p.cost # <<>>)
C17_Prices == Ready => /\ Len(prices) = Len(led.prices) + Costs + Cardinality(Remainders)
                       /\ \A i \in 1..Len(prices) : prices[i].imp => RSign(prices[i].q) > 0

LoadProps ==
  /\ C01_Balanced /\ C01_Complete /\ C02_Fill /\ C03_Assertions /\ C03_Running /\ C05_Sign
  /\ C06_Virtual /\ C09_Sorted /\ C16_Once /\ C17_Prices

------------------------------------------------------------------------------
(* Reports, for any options o *)
NoOpt == [b |-> <<>>, e |-> <<>>, real |-> FALSE, q |-> <<>>, flat |-> FALSE, depth |-> 0, x |-> "", total |-> TRUE]
Pick(o) == AllPicked(SelTab(o))
Good(o) == ~SelErr(SelTab(o))

(* C07: lines add up to the total, whatever the depth; no zero line *)
C07_Flat(o) ==
  LET ps == Pick(o)
      f == FlatReport(AccountSums(ps), o.depth)
  IN  /\ SumOver(f, DOMAIN f) = TotalOf(ps)
      /\ \A a \in DOMAIN f : ~BIsZero(f[a]) /\ (o.depth > 0 => Len(a) <= o.depth)

(* C08: a parent is its own postings plus its children; roots make the total;   *)
(* merging removes lines but no information                                      *)
C08_Tree(o) ==
  LET ps == Pick(o)
      sums == AccountSums(ps)
      f == TreeSums(sums, 0)
      at(n) == IF n \in DOMAIN f THEN f[n] ELSE NoBal
      own(n) == SumOver(sums, {a \in DOMAIN sums : Comps(a) = n})
      kids(n) == {m \in DOMAIN f : Len(m) = Len(n) + 1 /\ IsPrefix2(n, m)}
      ks(n) == SeqOf(kids(n))
      shown == TreeLines(f)
  IN  /\ \A n \in DOMAIN f : at(n) = BAdd(own(n), BSumB([k \in 1..Len(ks(n)) |-> at(ks(n)[k])]))
      /\ LET r == SeqOf({n \in DOMAIN f : Len(n) = 1})
         IN  BSumB([k \in 1..Len(r) |-> at(r[k])]) = TotalOf(ps)
      /\ \A n \in DOMAIN f : n \in DOMAIN shown \/ (\E m \in Below(DOMAIN shown, n) : shown[m] = f[n])
      /\ \A n \in DOMAIN TreeSums(sums, o.depth) : TreeSums(sums, o.depth)[n] = at(n)

(* C09: the register's last total is the total of the balance report *)
C09_Total(o) == LET ps == Pick(o) IN TotalOf(ps) = SumOver(AccountSums(ps), DOMAIN AccountSums(ps))

(* C10: cutting at a date splits the postings in two *)
C10_Split(o, d) ==
  LET all == SelTab([o EXCEPT !.b = <<>>, !.e = <<>>])
      lo == SelTab([o EXCEPT !.b = <<>>, !.e = <<d>>])
      hi == SelTab([o EXCEPT !.b = <<d>>, !.e = <<>>])
  IN  \A i \in 1..NT : \A j \in 1..Len(txns[i].ps) :
        (all[i][j] = "yes") = ((lo[i][j] = "yes") # (hi[i][j] = "yes"))
        /\ ~(lo[i][j] = "yes" /\ hi[i][j] = "yes")

(* C11: juxtaposition and "or" select the union, "and" the intersection *)
C11_Terms(t1, t2) ==
  LET sel(q) == SelTab([NoOpt EXCEPT !.q = q])
      y(v) == v = "yes"
      A == sel(<<t1>>)
      B == sel(<<t2>>)
      U == sel(<<t1, t2>>)
      O == sel(<<t1, [k |-> "or"], t2>>)
      I == sel(<<t1, [k |-> "and"], t2>>)
  IN  \A i \in 1..NT : \A j \in 1..Len(txns[i].ps) :
        /\ y(U[i][j]) = (y(A[i][j]) \/ y(B[i][j]))
        /\ U[i][j] = O[i][j]
        /\ y(I[i][j]) = (y(A[i][j]) /\ y(B[i][j]))

(* C18: conversion keeps what is already in x, is linear, and leaves what has no rate *)
C18_Linear(b1, b2, x, r) ==
  /\ Convert(BAdd(b1, b2), x, r) = BAdd(Convert(b1, x, r), Convert(b2, x, r))
  /\ \A c \in DOMAIN b1 : c # x /\ r[c] = <<>> => Get(Convert(b1, x, r), c) = b1[c]
==============================================================================
