-------------------------------- MODULE Trace --------------------------------
(* Conformance: recorded runs of the real program against the specification.  *)
(*                                                                            *)
(* $CASES names a JSON file [today, cases].  A case is a journal (in) and the   *)
(* runs recorded on it: [cmd, nc, o (options), rc, rows, tot, hs].  The         *)
(* specification loads the journal action by action and then consumes the       *)
(* runs, a register line per step.  A run that the specification does not       *)
(* allow is printed as {"bad": ...}, a finished case as {"done": ...}.          *)
(*                                                                            *)
(* A case with an empty list of journals is opaque: only agreement between its *)
(* runs is required (Verdicts).                                                *)
EXTENDS Props, Json, IOUtils

Doc == JsonDeserialize(IOEnv.CASES)
Cases == Doc.cases
Today == Ordinal(Doc.today)
TraceInput(i) == Cases[i].in

VARIABLES ri, row, rt, used, tot, st
obs == <<ri, row, rt, used, tot, st>>

Runs == Cases[id].runs
Run == Runs[ri]
Opaque == In.main = ""
NCs(i) == {NcOf(Cases[i].runs[j]) : j \in 1..Len(Cases[i].runs)}

TraceInit ==
  \E i \in 1..Len(Cases) : \E n \in NCs(i) :
    /\ InitWith(i, n)
    /\ ri = 1 /\ row = 0 /\ rt = 0 /\ used = {} /\ tot = NoBal /\ st = <<>>

Say(r) == PrintT("@@" \o ToJson(r))

------------------------------------------------------------------------------
(* Display *)
ComShown(c, k) == k \in DOMAIN tabs.cn /\ c \in tabs.cn[k]
BalShown(b, ms) ==
  /\ Len(ms) = Cardinality(DOMAIN b)
  /\ \A c \in DOMAIN b : \E i \in 1..Len(ms) : ms[i].q = RShow(b[c], 2) /\ ComShown(ms[i].c, c)
AmtShown(m, o) ==
  IF RIsZero(m.q) THEN o.q \in {"0", "0.00"} /\ (o.c = "" \/ ComShown(o.c, m.c))
  ELSE o.q = RShow(m.q, 2) /\ ComShown(o.c, m.c)

(* Name n is (the start, up to a colon, of) a name under which an account is shown. *)
ShownNames == UNION {tabs.an[k] : k \in DOMAIN tabs.an}
NameStart(n) == \E s \in ShownNames : s = n \/ StartsWith(s, n \o ":")

(* Lines f (components |-> balance) against rows [n, ms]. *)
LinesShown(f, rows) ==
  /\ Len(rows) = Cardinality(DOMAIN f)
  /\ \A i \in 1..Len(rows) :
       LET k == Comps(Lower(rows[i].n))
       IN  k \in DOMAIN f /\ BalShown(f[k], rows[i].ms) /\ NameStart(rows[i].n)
  /\ Cardinality({Lower(rows[i].n) : i \in 1..Len(rows)}) = Len(rows)

------------------------------------------------------------------------------
(* The balance report *)
RECURSIVE Choices(_, _)       \* all ways of picking one rate per commodity
Choices(rs, C) ==
  IF C = {} THEN {[c \in {} |-> <<>>]}
  ELSE LET c == CHOOSE c \in C : TRUE
           vs == IF rs[c] = {} THEN {<<>>} ELSE {<<r>> : r \in rs[c]}
       IN  {[x \in C |-> IF x = c THEN v ELSE g[x]] : v \in vs, g \in Choices(rs, C \ {c})}

MaxWays == 300                \* beyond this only the names of the lines are judged
RECURSIVE Ways(_, _)          \* how many there are
Ways(rs, C) ==
  IF C = {} THEN 1
  ELSE LET c == CHOOSE c \in C : TRUE
           w == Ways(rs, C \ {c})
       IN  IF w > MaxWays THEN w ELSE w * (IF rs[c] = {} THEN 1 ELSE Cardinality(rs[c]))

(* "" if the report is right, else what is wrong *)
BalVerdict(o, s) ==
  LET ps == AllPicked(s)
      sums == AccountSums(ps)
      total == TotalOf(ps)
      raw == IF o.flat THEN FlatReport(sums, o.depth) ELSE TreeSums(sums, o.depth)
      coms == UNION {DOMAIN raw[k] : k \in DOMAIN raw} \cup DOMAIN total
      x == KeyOf(tabs.com, o.x)
      conv == o.x # "" /\ x \in DOMAIN tabs.cn
      lines(r) == LET f == IF conv THEN NonZero([k \in DOMAIN raw |-> Convert(raw[k], x, r)]) ELSE raw
                  IN  IF o.flat THEN f ELSE TreeLines(f)
      tot1(r) == IF conv THEN Convert(total, x, r) ELSE total
      totOk(r, n) == IF n > 1 /\ o.total THEN Run.tot # <<>> /\ BalShown(tot1(r), Run.tot[1]) ELSE Run.tot = <<>>
      rs == IF conv THEN RateSets(coms, x, Today) ELSE <<>>
      cs == IF conv THEN Choices(rs, coms) ELSE {[c \in {} |-> <<>>]}
  IN  IF conv /\ Ways(rs, coms) > MaxWays
      THEN IF \A i \in 1..Len(Run.rows) : Comps(Lower(Run.rows[i].n)) \in DOMAIN raw THEN "" ELSE "lines"
      ELSE IF \E r \in cs : LinesShown(lines(r), Run.rows) /\ totOk(r, Cardinality(DOMAIN lines(r))) THEN ""
      ELSE IF \E r \in cs : LinesShown(lines(r), Run.rows) THEN "total" ELSE "lines"

(* Listings: names in order, each expected key once, optional ones at most once. *)
ListVerdict(map, opt, rows) ==
  LET hit(i) == {k \in DOMAIN map : rows[i] \in map[k]}
  IN  IF \E i \in 1..Len(rows) : hit(i) = {} THEN "unexpected name"
      ELSE IF \E i, j \in 1..Len(rows) : i # j /\ hit(i) \cap hit(j) # {} THEN "repeated name"
      ELSE IF \E k \in DOMAIN map \ (opt \cup {""}) : \A i \in 1..Len(rows) : k \notin hit(i) THEN "missing name"
      ELSE IF \E i \in 1..(Len(rows) - 1) : ~StrLess(rows[i], rows[i + 1]) THEN "order"
      ELSE ""

(* Prices, as a bag; an implied rate may be given in either direction. *)
PriceShown(p, r) ==
  \/ r.date = p.date /\ ComShown(r.c, p.c) /\ ComShown(r.to, p.to) /\ r.q = RShow(p.q, 2)
  \/ p.imp /\ r.date = p.date /\ ComShown(r.c, p.to) /\ ComShown(r.to, p.c) /\ r.q = RShow(RDiv(ROne, p.q), 2)
RECURSIVE PriceMatch(_, _)
PriceMatch(i, left) ==        \* left: indices of rows not yet matched
  IF i > Len(prices) THEN left = {}
  ELSE LET hits == {j \in left : PriceShown(prices[i], Run.rows[j])}
       IN  hits # {} /\ PriceMatch(i + 1, left \ {MinOf(hits)})
PriceVerdict == IF PriceMatch(1, 1..Len(Run.rows)) THEN "" ELSE "prices"

Same == Cardinality(Rng(Run.hs)) <= 1

(* A run that shows nothing but its verdict *)
FailVerdict == IF Run.rc # "fail" THEN "accepted or crashed: " \o Run.rc
               ELSE IF Run.rows # <<>> THEN "output despite failure" ELSE ""

(* A query that cannot be evaluated; the register may have begun *)
QueryError == IF Run.rc # "fail" THEN "accepted or crashed: " \o Run.rc ELSE ""

Effective == EffectiveOptions(Run)

Verdict ==
  IF ~Same THEN "output differs between runs"
  ELSE IF Effective = <<>> THEN FailVerdict
  ELSE IF pc = "rejected" THEN FailVerdict
  ELSE
  LET o == Effective[1]
      s == SelTab(o)
  IN  CASE Run.cmd = "bal" ->
             IF SelErr(s) THEN QueryError
             ELSE IF Run.rc # "ok" THEN "refused: " \o Run.rc ELSE BalVerdict(o, s)
        [] Run.rc # "ok" -> "refused: " \o Run.rc
        [] Run.cmd = "check" -> ""
        [] Run.cmd = "accounts" -> ListVerdict(tabs.an, {}, Run.rows)
        [] Run.cmd = "payees" -> ListVerdict(tabs.pn, {}, Run.rows)
        [] Run.cmd = "commodities" -> ListVerdict(tabs.cn, tabs.opt, Run.rows)
        [] Run.cmd = "prices" -> PriceVerdict

NextRun == ri' = ri + 1 /\ row' = 0 /\ rt' = 0 /\ used' = {} /\ tot' = NoBal /\ st' = <<>>
Report(what) ==
  IF what = "" THEN TRUE
  ELSE Say([bad |-> Cases[id].id, run |-> ri, row |-> row, what |-> what, pc |-> pc, why |-> why])

Mine == ri <= Len(Runs) /\ NcOf(Run) = nc
SkipRun == Done /\ ~Opaque /\ ri <= Len(Runs) /\ NcOf(Run) # nc /\ NextRun /\ UNCHANGED vars

IsReg == Run.cmd = "reg" /\ pc = "ready" /\ Same /\ Effective # <<>>
ObserveRun ==
  /\ Done /\ ~Opaque /\ Mine /\ ~IsReg
  /\ Report(Verdict)
  /\ NextRun /\ UNCHANGED vars

------------------------------------------------------------------------------
(* The register, one line per step. *)
OpenReg ==
  /\ Done /\ ~Opaque /\ Mine /\ IsReg /\ st = <<>>
  /\ LET s == SelTab(Effective[1])
     IN  IF SelErr(s) THEN Report(QueryError) /\ NextRun
         ELSE IF Run.rc # "ok" THEN Report("refused: " \o Run.rc) /\ NextRun
         ELSE st' = <<s>> /\ row' = 1 /\ UNCHANGED <<ri, rt, used, tot>>
  /\ UNCHANGED vars

Sel(i) == IF i = 0 THEN {} ELSE {j \in 1..Len(txns[i].ps) : st[1][i][j] = "yes"}
NextTxn == LET S == {i \in (rt + 1)..Len(txns) : Sel(i) # {}} IN IF S = {} THEN 0 ELSE MinOf(S)

(* Descriptions are shown as the payee they denote, possibly cut short. *)
DescNames(t) ==
  LET D == t.desc
      l == Lower(D)
  IN  IF \E s \in PaySpellings : Lower(s) = l THEN {Lower(PayeeName(tabs.pay, D))}
      ELSE IF l \in tabs.pay.names THEN {l}
      ELSE IF l \in DOMAIN tabs.pay.alias THEN {tabs.pay.alias[l]}
      ELSE {l}
DescShown(t, d) ==
  \E n \in DescNames(t) :
    \/ Lower(d) = n
    \/ EndsWith(d, "..") /\ Len(d) > 22 /\ Len(n) + 2 > Len(d) /\ StartsWith(n \o " ", Lower(SubSeq(d, 1, Len(d) - 2)))

RegRow ==
  /\ Done /\ ~Opaque /\ Mine /\ IsReg /\ st # <<>> /\ row <= Len(Run.rows)
  /\ LET r == Run.rows[row]
         head == r.h # <<>>
         nt == IF head THEN NextTxn ELSE rt
         u == IF head THEN {} ELSE used
         cand == {j \in Sel(nt) \ u :
                    LET p == txns[nt].ps[j] IN
                    r.k = p.k /\ r.a \in tabs.an[p.a] /\ AmtShown(p.amt[1], r.m)}
         j == MinOf(cand)
         b == BAdd1(tot, txns[nt].ps[j].amt[1])
     IN  IF head /\ Sel(rt) # used THEN Report("posting missing") /\ NextRun
         ELSE IF nt = 0 THEN Report("line without transaction") /\ NextRun
         ELSE IF head /\ r.h[1].date # txns[nt].date THEN Report("date or order") /\ NextRun
         ELSE IF head /\ ~DescShown(txns[nt], r.h[1].desc) THEN Report("description") /\ NextRun
         ELSE IF cand = {} THEN Report("posting") /\ NextRun
         ELSE IF ~BalShown(b, r.t) THEN Report("running total") /\ NextRun
         ELSE /\ tot' = b /\ rt' = nt /\ used' = u \cup {j} /\ row' = row + 1
              /\ UNCHANGED <<ri, st>>
  /\ UNCHANGED vars

CloseReg ==
  /\ Done /\ ~Opaque /\ Mine /\ IsReg /\ st # <<>> /\ row > Len(Run.rows)
  /\ Report(IF Sel(rt) # used \/ NextTxn # 0 THEN "posting missing at end" ELSE "")
  /\ NextRun /\ UNCHANGED vars

------------------------------------------------------------------------------
(* Opaque cases: all runs must agree on the verdict and end by themselves. *)
OpaqueObs ==
  /\ Opaque /\ ri <= Len(Runs)
  /\ LET same == {j \in 1..Len(Runs) : Runs[j].nc = Run.nc}
     IN  Report(IF Run.rc \notin {"ok", "fail"} THEN "does not end: " \o Run.rc
                ELSE IF ~Same THEN "output differs between runs"
                ELSE IF \E j \in same : Runs[j].rc # Run.rc THEN "verdicts differ"
                ELSE IF Run.rc = "fail" /\ Run.rows # <<>> THEN "output despite failure"
                ELSE "")
  /\ NextRun /\ UNCHANGED vars

Finish ==
  /\ (Done \/ Opaque) /\ ri = Len(Runs) + 1
  /\ Say([done |-> Cases[id].id, nc |-> nc, pc |-> IF Opaque THEN "opaque" ELSE pc, why |-> why, txns |-> Len(txns)])
  /\ ri' = ri + 1 /\ UNCHANGED <<row, rt, used, tot, st>> /\ UNCHANGED vars

TraceNext ==
  \/ ~Opaque /\ LoadNext /\ UNCHANGED obs
  \/ SkipRun \/ ObserveRun \/ OpenReg \/ RegRow \/ CloseReg \/ OpaqueObs \/ Finish

(* The properties of Props on every journal that was loaded *)
Loaded == ri = 1 /\ row = 0 /\ st = <<>> /\ ~Opaque => LoadProps

TraceSpec == TraceInit /\ [][TraceNext]_<<vars, obs>>
==============================================================================
