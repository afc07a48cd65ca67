-------------------------------- MODULE Dinero -------------------------------
(* How dinero turns a journal into a ledger: reading the files and their      *)
(* includes, resolving names, balancing the transactions in date order, and    *)
(* applying automated transactions followed by a second balancing pass.        *)
(*                                                                             *)
(* The journal is InputOf(id): [files |-> [path |-> sequence of items],         *)
(* main |-> path].  Items are                                                  *)
(*   [k |-> "txn", date, pay, desc, cs, ps]      a transaction                  *)
(*   [k |-> "auto", q, cs, ps]                   an automated transaction        *)
(*   [k |-> "price", date, c, q, to]             a P directive                   *)
(*   [k |-> "acc"|"com"|"pay", n, al, (pp)]      declarations                    *)
(*   [k |-> "inc", fs]                           include, with the files it      *)
(*                                               denotes in name order           *)
(*   [k |-> "bad"]                               text that is no entry           *)
(*   [k |-> "nop"]                               comment or ignored directive    *)
(* A posting is [a, k, amt, cost, asr, cs], with k "R" (real), "V" (virtual) or *)
(* "B" (balanced virtual); or [a, k, raw, cs] with the text after the account.  *)
(* Options nc: --no-balance-check.                                              *)
EXTENDS Lex, Expr

CONSTANT InputOf(_)

VARIABLES
  id,      \* which journal
  nc,      \* balance checks off?
  pc,      \* "read", "resolve", "post", "auto", "ready", "rejected"
  stack,   \* files being read, innermost last: [f, i]
  led,     \* what has been read
  tabs,    \* name tables, after reading
  txns,    \* transactions, resolved, in date order
  ti, pi,  \* transaction and posting being processed
  pass,    \* 1, or 2 after automated transactions
  cur,     \* transaction being balanced: [out, res, el, n]
  bal,     \* running balance of real postings per account
  prices,  \* known prices [d, c, q, to, imp]
  why      \* reason for rejection

vars == <<id, nc, pc, stack, led, tabs, txns, ti, pi, pass, cur, bal, prices, why>>
In == InputOf(id)

------------------------------------------------------------------------------
(* Sequences *)
RECURSIVE FlatSeq(_)
FlatSeq(ss) == IF ss = <<>> THEN <<>> ELSE ss[1] \o FlatSeq(Tail(ss))
Rng(s) == {s[i] : i \in 1..Len(s)}
RECURSIVE SeqOf(_)
SeqOf(S) == IF S = {} THEN <<>> ELSE LET x == CHOOSE x \in S : TRUE IN <<x>> \o SeqOf(S \ {x})
MinOf(S) == CHOOSE x \in S : \A y \in S : x <= y

(* Stable insertion by day number. *)
RECURSIVE InsertByDate(_, _)
InsertByDate(s, t) ==
  IF s = <<>> THEN <<t>>
  ELSE IF s[Len(s)].d <= t.d THEN Append(s, t)
  ELSE Append(InsertByDate(SubSeq(s, 1, Len(s) - 1), t), s[Len(s)])
RECURSIVE SortByDate(_)
SortByDate(s) == IF s = <<>> THEN <<>>
                 ELSE InsertByDate(SortByDate(SubSeq(s, 1, Len(s) - 1)), s[Len(s)])

------------------------------------------------------------------------------
(* Well-formedness of what is written. *)
AmtOk(m) == m = <<>> \/ RDec(m[1].q) # ""
AmtVal(m) == IF m = <<>> THEN <<>> ELSE <<[m[1] EXCEPT !.q = RDec(@)]>>

(* A posting as read: [ok, a, k, amt, cost, asr, cs] *)
ReadPosting(p) ==
  IF "raw" \in DOMAIN p
  THEN LET r == ReadTail(p.raw)
       IN  [ok |-> r.ok, a |-> p.a, k |-> p.k, amt |-> r.amt, cost |-> r.cost, asr |-> r.asr, cs |-> p.cs]
  ELSE [ok |-> AmtOk(p.amt) /\ AmtOk(p.cost) /\ AmtOk(p.asr),
        a |-> p.a, k |-> p.k, amt |-> AmtVal(p.amt), cost |-> AmtVal(p.cost),
        asr |-> AmtVal(p.asr), cs |-> p.cs]

TotalOfNothing(p) == p.cost # <<>> /\ p.cost[1].t = "T" /\ RIsZero(p.amt[1].q)

(* The price a cost implies for one unit. *)
UnitPrice(p) == IF p.cost[1].t = "U" THEN p.cost[1].q ELSE RDiv(p.cost[1].q, RAbs(p.amt[1].q))

(* What a posting counts for in its transaction. *)
Weight(p) ==
  IF p.cost = <<>> THEN p.amt[1]
  ELSE IF p.cost[1].t = "U" THEN Money(RMul(p.amt[1].q, p.cost[1].q), p.cost[1].c)
  ELSE Money(IF RSign(p.amt[1].q) < 0 THEN RNeg(p.cost[1].q) ELSE p.cost[1].q, p.cost[1].c)

------------------------------------------------------------------------------
NoLed == [txns |-> <<>>, autos |-> <<>>, prices |-> <<>>, accs |-> <<>>, coms |-> <<>>, pays |-> <<>>]
NoTab == [names |-> {}, decl |-> [x \in {} |-> 0], alias |-> [x \in {} |-> ""]]
NoTabs == [acc |-> NoTab, com |-> NoTab, pay |-> NoTab, an |-> [x \in {} |-> {}],
           cn |-> [x \in {} |-> {}], pn |-> [x \in {} |-> {}], opt |-> {}]
NoCur == [out |-> <<>>, res |-> NoBal, el |-> 0, n |-> 0]
NoBals == [a \in {} |-> NoBal]

InitWith(i, n) ==
  /\ id = i /\ nc = n
  /\ pc = "read"
  /\ stack = <<[f |-> InputOf(i).main, i |-> 0, fs |-> <<>>]>>
  /\ led = NoLed /\ tabs = NoTabs /\ txns = <<>>
  /\ ti = 1 /\ pi = 1 /\ pass = 1
  /\ cur = NoCur /\ bal = NoBals /\ prices = <<>> /\ why = ""

Reject(reason) ==
  /\ pc' = "rejected" /\ why' = reason
  /\ stack' = <<>> /\ txns' = <<>> /\ cur' = NoCur /\ bal' = NoBals /\ prices' = <<>>
  /\ led' = NoLed /\ tabs' = NoTabs
  /\ UNCHANGED <<id, nc, ti, pi, pass>>

------------------------------------------------------------------------------
(* Reading.  The top frame may still have files of a glob to visit (fs).       *)
Top == stack[Len(stack)]
Open == {stack[i].f : i \in 1..Len(stack)}
Pop(s) == SubSeq(s, 1, Len(s) - 1)
Advance(s) == [s EXCEPT ![Len(s)].i = @ + 1]
Content(f) == IF f \in DOMAIN In.files THEN In.files[f] ELSE <<>>
Item == Content(Top.f)[Top.i + 1]

KeepRead == UNCHANGED <<id, nc, tabs, txns, ti, pi, pass, cur, bal, prices, why>>

ReadItem ==
  /\ pc = "read" /\ stack # <<>> /\ Top.fs = <<>> /\ Top.i < Len(Content(Top.f))
  /\ LET it == Item
         ps == IF it.k = "txn" THEN [j \in 1..Len(it.ps) |-> ReadPosting(it.ps[j])] ELSE <<>>
     IN
     CASE it.k = "txn" /\ ~ValidDate(it.date) -> Reject("date")
       [] it.k = "txn" /\ ValidDate(it.date) /\ (\E j \in 1..Len(ps) : ~ps[j].ok \/ TotalOfNothing(ps[j])) ->
            Reject("amount")
       [] it.k = "txn" /\ ValidDate(it.date) /\ (\A j \in 1..Len(ps) : ps[j].ok /\ ~TotalOfNothing(ps[j])) ->
            /\ stack' = Advance(stack)
            /\ led' = [led EXCEPT !.txns = Append(@, [it EXCEPT !.ps = ps])]
            /\ UNCHANGED pc /\ KeepRead
       [] it.k = "auto" ->
            /\ stack' = Advance(stack)
            /\ led' = [led EXCEPT !.autos = Append(@, it)]
            /\ UNCHANGED pc /\ KeepRead
       [] it.k = "price" ->
            IF ~ValidDate(it.date) \/ RDec(it.q) = "" THEN Reject("price")
            ELSE /\ stack' = Advance(stack)
                 /\ led' = [led EXCEPT !.prices = Append(@, it)]
                 /\ UNCHANGED pc /\ KeepRead
       [] it.k \in {"acc", "com", "pay"} ->
            /\ stack' = Advance(stack)
            /\ led' = CASE it.k = "acc" -> [led EXCEPT !.accs = Append(@, it)]
                        [] it.k = "com" -> [led EXCEPT !.coms = Append(@, it)]
                        [] OTHER -> [led EXCEPT !.pays = Append(@, it)]
            /\ UNCHANGED pc /\ KeepRead
       [] it.k = "inc" ->
            /\ stack' = [Advance(stack) EXCEPT ![Len(stack)].fs = it.fs]
            /\ UNCHANGED <<pc, led>> /\ KeepRead
       [] it.k = "nop" -> stack' = Advance(stack) /\ UNCHANGED <<pc, led>> /\ KeepRead
       [] it.k = "bad" -> Reject("text")

(* An include directive enters the files it names, one after the other. *)
EnterInclude ==
  /\ pc = "read" /\ stack # <<>> /\ Top.fs # <<>>
  /\ LET f == Top.fs[1]
     IN  IF f \in Open THEN Reject("include cycle")
         ELSE /\ stack' = Append([stack EXCEPT ![Len(stack)].fs = Tail(@)], [f |-> f, i |-> 0, fs |-> <<>>])
              /\ UNCHANGED <<pc, led>> /\ KeepRead

ReturnFromFile ==
  /\ pc = "read" /\ stack # <<>> /\ Top.fs = <<>> /\ Top.i >= Len(Content(Top.f))
  /\ stack' = Pop(stack)
  /\ pc' = IF Len(stack) = 1 THEN "resolve" ELSE "read"
  /\ UNCHANGED led /\ KeepRead

------------------------------------------------------------------------------
(* Resolution of names, once everything has been read. *)
PayeeOf(t) == IF t.pay # <<>> THEN t.pay[1] ELSE IF t.desc # "" THEN t.desc ELSE "[Unspecified payee]"

RECURSIVE ExprComs(_)
ExprComs(e) ==
  CASE e.o = "money" -> {e.c}
    [] e.o \in {"neg", "not", "abs", "any", "has_tag", "tag"} -> ExprComs(e.x)
    [] "l" \in DOMAIN e -> ExprComs(e.l) \cup ExprComs(e.r)
    [] OTHER -> {}

(* Every spelling in the journal. *)
AccSpellings ==
  UNION {{p.a : p \in Rng(t.ps)} : t \in Rng(led.txns)} \cup
  UNION {{p.a : p \in Rng(t.ps)} : t \in Rng(led.autos)}
MonCom(m) == IF m = <<>> THEN {} ELSE {m[1].c}
ComSpellings ==
  UNION {UNION {MonCom(p.amt) \cup MonCom(p.cost) \cup MonCom(p.asr) : p \in Rng(t.ps)} : t \in Rng(led.txns)} \cup
  UNION {{p.c : p \in {x \in Rng(t.ps) : x.m = "fix"}} : t \in Rng(led.autos)} \cup
  (IF \E t \in Rng(led.autos) : \E p \in Rng(t.ps) : p.m = "mul" THEN {""} ELSE {}) \cup
  UNION {{p.c, p.to} : p \in Rng(led.prices)}
QueryComs(q) == UNION {IF q[i].k = "expr" THEN ExprComs(q[i].e) ELSE {} : i \in 1..Len(q)}
OptComs ==
  UNION {QueryComs(t.q) \cup UNION {IF p.m = "expr" THEN ExprComs(p.e) ELSE {} : p \in Rng(t.ps)}
         : t \in Rng(led.autos)}
PaySpellings == {PayeeOf(t) : t \in {x \in Rng(led.txns) : x.ps # <<>>}}

NameMap(tab, S, kf(_)) ==
  LET keys == {kf(s) : s \in S} \cup tab.names
  IN  [k \in keys |-> IF k \in tab.names THEN {tab.decl[k].n} ELSE {s \in S : kf(s) = k}]

(* The account of a posting: unknown accounts are chosen by payee. *)
UnknownHits(at, payee) ==
  {k \in at.names : \E j \in 1..Len(at.decl[k].pp) : Matches(at.decl[k].pp[j], FALSE, payee)}
MaxStr(S) == CHOOSE x \in S : \A y \in S : y = x \/ StrLess(y, x)
AccountOf(at, a, payee) ==
  IF EndsWith(Lower(a), "unknown") /\ UnknownHits(at, payee) # {}
  THEN MaxStr(UnknownHits(at, payee)) ELSE KeyOf(at, a)

TagsIn(cs) == TagsOfAll(cs, 1)

ResolvePosting(tb, t, p, ttags) ==
  LET pn == PayeeName(tb.pay, PayeeOf(t))
      a == AccountOf(tb.acc, p.a, pn)
      rm(m) == IF m = <<>> THEN <<>> ELSE <<[m[1] EXCEPT !.c = KeyOf(tb.com, @)]>>
  IN  [k |-> p.k, a |-> a, an |-> MinStr(tb.an[a]), pn |-> pn,
       amt |-> rm(p.amt), cost |-> rm(p.cost), asr |-> rm(p.asr),
       tags |-> ttags \o TagsIn(p.cs), or |-> "T", fill |-> FALSE, w |-> p.amt # <<>>]

ResolveTxn(tb, t) ==
  LET tt == TagsIn(t.cs)
  IN  [d |-> Ordinal(t.date), date |-> t.date, desc |-> t.desc, pay |-> PayeeOf(t), notes |-> t.cs,
       ps |-> [i \in 1..Len(t.ps) |-> ResolvePosting(tb, t, t.ps[i], tt)]]

Tables ==
  LET at == Table(led.accs)
      ct == Table(led.coms)
      pt == Table(led.pays)
  IN  [acc |-> at, com |-> ct, pay |-> pt,
       an |-> NameMap(at, AccSpellings, LAMBDA s : KeyOf(at, s)),
       cn |-> NameMap(ct, ComSpellings \cup OptComs, LAMBDA s : KeyOf(ct, s)),
       pn |-> NameMap(pt, PaySpellings, LAMBDA s : PayeeKey(pt, s)),
       opt |-> {KeyOf(ct, s) : s \in OptComs} \ ({KeyOf(ct, s) : s \in ComSpellings} \cup ct.names)]

CostPrices(ts) ==
  FlatSeq([i \in 1..Len(ts) |->
     FlatSeq([j \in 1..Len(ts[i].ps) |->
        LET p == ts[i].ps[j] IN
        IF p.cost = <<>> THEN <<>>
        ELSE <<[date |-> ts[i].date, c |-> p.amt[1].c, q |-> UnitPrice(p), to |-> p.cost[1].c, imp |-> FALSE]>>])])

Resolve ==
  /\ pc = "resolve"
  /\ LET tb == Tables
         ts == [i \in 1..Len(led.txns) |-> ResolveTxn(tb, led.txns[i])]
     IN  /\ tabs' = tb
         /\ txns' = SortByDate(ts)
         /\ prices' = [i \in 1..Len(led.prices) |->
                         [date |-> led.prices[i].date, c |-> KeyOf(tb.com, led.prices[i].c),
                          q |-> RDec(led.prices[i].q), to |-> KeyOf(tb.com, led.prices[i].to), imp |-> FALSE]]
                      \o CostPrices(ts)
  /\ pc' = "post"
  /\ UNCHANGED <<id, nc, stack, led, ti, pi, pass, cur, bal, why>>

------------------------------------------------------------------------------
(* Balancing one transaction, posting by posting. *)
T == txns[ti]
BalOf(a) == IF a \in DOMAIN bal THEN bal[a] ELSE NoBal
SetBal(a, b) == [x \in DOMAIN bal \cup {a} |-> IF x = a THEN b ELSE bal[x]]
Kind(ps, k) == SelectSeq(ps, LAMBDA p : p.k = k)
BareZero(m) == RIsZero(m.q) /\ m.c = ""

(* "= X" holds for balance b: of the given commodity, or of all if X is a bare 0 *)
AssertionHolds(b, m) == IF BareZero(m) THEN BIsZero(b) ELSE RIsZero(RSub(Get(b, m.c), m.q))

OpenTxn ==
  /\ pc = "post" /\ ti <= Len(txns) /\ pi = 1
  /\ LET vs == Kind(T.ps, "B")
     IN  IF \E p \in Rng(T.ps) : p.k # "R" /\ p.amt = <<>>
         THEN Reject("virtual posting without amount")
         ELSE IF ~Balanced(BSum([i \in 1..Len(vs) |-> Weight(vs[i])]))
         THEN Reject("unbalanced virtual postings")
         ELSE pi' = 2 /\ cur' = NoCur
              /\ UNCHANGED <<id, nc, pc, stack, led, tabs, txns, ti, pass, bal, prices, why>>

KeepPost == UNCHANGED <<id, nc, pc, stack, led, tabs, txns, ti, pass, prices, why>>

(* pi - 1 is the posting at hand *)
InTxn == pc = "post" /\ ti <= Len(txns) /\ pi >= 2
PostHere == InTxn /\ pi - 1 <= Len(T.ps)
P == T.ps[pi - 1]

SkipVirtual == PostHere /\ P.k # "R" /\ pi' = pi + 1 /\ UNCHANGED <<cur, bal>> /\ KeepPost

PostAmount ==
  /\ PostHere /\ P.k = "R" /\ P.amt # <<>>
  /\ LET b == BAdd1(BalOf(P.a), P.amt[1])
     IN  IF ~nc /\ P.asr # <<>> /\ ~AssertionHolds(b, P.asr[1])
         THEN Reject("balance assertion")
         ELSE /\ bal' = SetBal(P.a, b)
              /\ cur' = [cur EXCEPT !.out = Append(@, P), !.res = BAdd1(@, Weight(P))]
              /\ pi' = pi + 1 /\ KeepPost

(* "= X" without an amount: the amount that makes the balance X *)
PostAssign ==
  /\ PostHere /\ P.k = "R" /\ P.amt = <<>> /\ P.asr # <<>> /\ ~nc
  /\ LET b == BalOf(P.a)
         m == P.asr[1]
         one == IF DOMAIN b = {} THEN Money(RZero, "") ELSE
                LET c == CHOOSE c \in DOMAIN b : TRUE IN Money(RNeg(b[c]), c)
         x == IF BareZero(m) THEN one ELSE Money(RSub(m.q, Get(b, m.c)), m.c)
     IN  IF BareZero(m) /\ Cardinality(DOMAIN b) > 1 THEN Reject("ambiguous assignment")
         ELSE /\ bal' = SetBal(P.a, BAdd1(b, x))
              /\ cur' = [cur EXCEPT !.out = Append(@, [P EXCEPT !.amt = <<x>>]), !.res = BAdd1(@, x)]
              /\ pi' = pi + 1 /\ KeepPost

PostElided ==
  /\ PostHere /\ P.k = "R" /\ P.amt = <<>> /\ (P.asr = <<>> \/ nc)
  /\ cur' = [cur EXCEPT !.el = pi - 1, !.n = @ + 1]
  /\ pi' = pi + 1 /\ UNCHANGED bal /\ KeepPost

Final == pass = 2 \/ led.autos = <<>>
Others == SelectSeq(T.ps, LAMBDA p : p.k # "R")

CloseTxn ==
  /\ InTxn /\ pi - 1 > Len(T.ps)
  /\ IF cur.n > 1 THEN Reject("two elided amounts")
     ELSE IF cur.n = 0 /\ ~Balanced(cur.res) THEN Reject("unbalanced")
     ELSE
       LET cs == IF cur.n = 1 THEN SeqOf(DOMAIN cur.res) ELSE <<>>
           el == T.ps[cur.el]
           fills == [i \in 1..Len(cs) |->
                       [el EXCEPT !.amt = <<Money(RNeg(cur.res[cs[i]]), cs[i])>>, !.asr = <<>>, !.fill = TRUE]]
           two == cur.n = 0 /\ Cardinality(DOMAIN cur.res) = 2 /\ Final
           c1 == CHOOSE c \in DOMAIN cur.res : TRUE
           c2 == CHOOSE c \in DOMAIN cur.res \ {c1} : TRUE
       IN  /\ txns' = [txns EXCEPT ![ti].ps = cur.out \o fills \o Others]
           /\ bal' = IF cur.n = 1 THEN SetBal(el.a, BSub(BalOf(el.a), cur.res)) ELSE bal
           /\ prices' = IF two
                        THEN Append(prices, [date |-> T.date, c |-> c1,
                                             q |-> RDiv(RAbs(cur.res[c2]), RAbs(cur.res[c1])), to |-> c2, imp |-> TRUE])
                        ELSE prices
           /\ ti' = ti + 1 /\ pi' = 1 /\ cur' = NoCur
           /\ UNCHANGED <<id, nc, pc, stack, led, tabs, pass, why>>

EndPass ==
  /\ pc = "post" /\ ti > Len(txns)
  /\ pc' = IF Final THEN "ready" ELSE "auto"
  /\ ti' = 1 /\ pi' = 1
  /\ UNCHANGED <<id, nc, stack, led, tabs, txns, pass, cur, bal, prices, why>>

------------------------------------------------------------------------------
(* Automated transactions. *)
CtxOf(t, ps, p) == [p |-> p, t |-> t, ps |-> ps, ck |-> tabs.com]

(* The posting that automated posting ap adds for the matched posting p:        *)
(* [ok, p]                                                                      *)
AutoPosting(t, ps, p, ap) ==
  LET v == IF ap.m = "expr" THEN Eval(ap.e, CtxOf(t, ps, p)) ELSE VErr
      m == CASE ap.m = "fix" -> Money(RDec(ap.q), KeyOf(tabs.com, ap.c))
             [] ap.m = "mul" -> Money(RMul(RDec(ap.q), p.amt[1].q), p.amt[1].c)
             [] v.t = "num" -> Money(RMul(v.q, p.amt[1].q), p.amt[1].c)
             [] v.t = "money" -> Money(v.q, v.c)
             [] OTHER -> Money(RZero, "")
      a == KeyOf(tabs.acc, ap.a)
  IN  [ok |-> ap.m # "expr" \/ v.t \in {"num", "money"},
       p |-> [k |-> ap.k, a |-> a, an |-> MinStr(tabs.an[a]), pn |-> p.pn, amt |-> <<m>>,
              cost |-> <<>>, asr |-> <<>>, tags |-> <<>>, or |-> "A", fill |-> FALSE, w |-> TRUE]]

(* One automated transaction on the postings ps of t from index i on:           *)
(* [ok, ps (with tags added), extra]                                            *)
RECURSIVE AutoOn(_, _, _, _, _, _)
AutoOn(t, qe, au, ps, i, extra) ==
  IF i > Len(ps) THEN [ok |-> TRUE, ps |-> ps, extra |-> extra]
  ELSE IF ps[i].or # "T" THEN AutoOn(t, qe, au, ps, i + 1, extra)
  ELSE LET h == Holds(qe, CtxOf(t, ps, ps[i]))
       IN  CASE h = "err" -> [ok |-> FALSE, ps |-> ps, extra |-> extra]
             [] h = "no" -> AutoOn(t, qe, au, ps, i + 1, extra)
             [] OTHER ->
                LET ps2 == [ps EXCEPT ![i].tags = @ \o TagsIn(au.cs)]
                    new == [j \in 1..Len(au.ps) |-> AutoPosting(t, ps2, ps2[i], au.ps[j])]
                IN  IF \E j \in 1..Len(new) : ~new[j].ok
                    THEN [ok |-> FALSE, ps |-> ps, extra |-> extra]
                    ELSE AutoOn(t, qe, au, ps2, i + 1, extra \o [j \in 1..Len(new) |-> new[j].p])

RECURSIVE AllAutos(_, _, _)
AllAutos(t, k, ps) ==
  IF k > Len(led.autos) THEN [ok |-> TRUE, ps |-> ps]
  ELSE LET au == led.autos[k]
           r == AutoOn(t, QueryExpr(au.q), au, ps, 1, <<>>)
       IN  IF ~r.ok THEN [ok |-> FALSE, ps |-> ps]
           ELSE AllAutos(t, k + 1, r.ps \o r.extra)

AutoTxn ==
  /\ pc = "auto" /\ ti <= Len(txns)
  /\ LET r == AllAutos(T, 1, T.ps)
     IN  IF ~r.ok THEN Reject("expression")
         ELSE /\ txns' = [txns EXCEPT ![ti].ps = r.ps]
              /\ ti' = ti + 1
              /\ UNCHANGED <<id, nc, pc, stack, led, tabs, pi, pass, cur, bal, prices, why>>

SecondPass ==
  /\ pc = "auto" /\ ti > Len(txns)
  /\ pc' = "post" /\ pass' = 2 /\ ti' = 1 /\ pi' = 1 /\ bal' = NoBals
  /\ UNCHANGED <<id, nc, stack, led, tabs, txns, cur, prices, why>>

------------------------------------------------------------------------------
LoadNext ==
  \/ ReadItem \/ EnterInclude \/ ReturnFromFile \/ Resolve
  \/ OpenTxn \/ SkipVirtual \/ PostAmount \/ PostAssign \/ PostElided \/ CloseTxn \/ EndPass
  \/ AutoTxn \/ SecondPass

Done == pc \in {"ready", "rejected"}
==============================================================================
