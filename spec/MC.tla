---------------------------------- MODULE MC ---------------------------------
(* Exhaustive exploration of small families of journals, one family per        *)
(* property.  Each journal is loaded action by action; the properties of Props  *)
(* are invariants, and every load has to end.  With Emit each finished journal   *)
(* is printed, to be replayed on the real program.                              *)
EXTENDS Props, Json
CONSTANTS Prop, Deep, Emit

------------------------------------------------------------------------------
(* Building journals *)
Mo(q, c) == <<[q |-> q, c |-> c]>>
Po(a, k, amt, cost, asr) == [a |-> a, k |-> k, amt |-> amt, cost |-> cost, asr |-> asr, cs |-> <<>>]
R(a, amt) == Po(a, "R", amt, <<>>, <<>>)
Tx(d, ps) == [k |-> "txn", date |-> d, desc |-> "d", pay |-> <<>>, cs |-> <<>>, ps |-> ps]
D(n) == <<2020, 1, n>>
J(items) == [main |-> "main", files |-> [main |-> items]]
Case(j, o) == [in |-> j, o |-> o]
Plain(js) == {Case(j, NoOpt) : j \in js}
SeqsTo(S, n) == UNION {[1..k -> S] : k \in 1..n}
MCInput(i) == i.in
A1 == Mo("1", "A")
Am1 == Mo("-1", "A")

(* C01: one transaction, any combination of small amounts *)
F01 ==
  LET ms == {A1, Am1, Mo("1", "B"), Mo("-1", "B"), Mo("0", "A"), Mo("0.01", "A"), <<>>} \cup
            (IF Deep THEN {Mo("2", "B"), Mo("1", "C"), Mo("-1", "C")} ELSE {})
  IN  Plain({J(<<Tx(D(1), [i \in 1..Len(s) |-> R("x", s[i])])>>) : s \in SeqsTo(ms, IF Deep THEN 4 ELSE 3)})

(* C02: an elided posting among others, some with costs; a later assertion      *)
F02 ==
  LET ps == {R("x", A1), R("y", Mo("-0.5", "B")), R("x", Mo("0", "A")),
             Po("x", "R", Mo("2", "A"), <<[t |-> "U", q |-> "0.5", c |-> "B"]>>, <<>>),
             Po("y", "R", Mo("-1", "A"), <<[t |-> "T", q |-> "3", c |-> "B"]>>, <<>>)}
      el == R("z", <<>>)
      later(m) == Tx(D(2), <<Po("z", "R", Mo("0", "A"), <<>>, m)>>)
  IN  Plain({J(<<Tx(D(1), s), later(m)>>) :
               s \in UNION {{SubSeq(q, 1, i) \o <<el>> \o SubSeq(q, i + 1, Len(q)) : i \in 0..Len(q)} : q \in SeqsTo(ps, IF Deep THEN 3 ELSE 2)},
               m \in {<<>>, Mo("0", ""), Mo("-1", "A"), Mo("0.5", "B")}})

(* C03: assertions, in any date order *)
F03 ==
  LET first == {R("x", m) : m \in {A1, Am1, Mo("1", "B")}} \cup {Po("x", "V", A1, <<>>, <<>>), R("x:s", A1)}
      asr == {Mo("0", ""), Mo("0", "A"), A1, Mo("2", "A"), Mo("1", "B"), Am1}
      second == {Po("x", "R", m, <<>>, a) : m \in {A1, Mo("0", "A"), Mo("-1", "B")}, a \in asr}
      e == R("z", <<>>)
      t1(d, p) == Tx(d, <<p, e>>)
  IN  Plain({J(<<t1(d1, p), t1(d2, q)>>) : d1 \in {D(1), D(2)}, d2 \in {D(1), D(2)}, p \in first, q \in second}
            \cup {J(<<Tx(D(1), <<p, q, e>>)>>) : p \in first, q \in second}
            \cup {J(<<Tx(D(1), <<e, q, p>>)>>) : p \in first, q \in second}
            \cup (IF Deep THEN {J(<<t1(d1, p), t1(d2, q), t1(d3, r)>>) : d1 \in {D(1), D(2)}, d2 \in {D(1), D(2)}, d3 \in {D(1), D(2)},
                                  p \in {R("x", A1), R("x", Mo("1", "B"))}, q \in second, r \in second} ELSE {}))

(* C04: assignments *)
F04 ==
  LET asr == {Mo("0", ""), Mo("0", "A"), A1, Mo("2", "A"), Mo("1", "B")}
      ps == {R("x", A1), R("x", Mo("-1", "B"))} \cup {Po("x", "R", <<>>, <<>>, a) : a \in asr}
      e == R("z", <<>>)
  IN  Plain({J(<<Tx(d1, <<p, e>>), Tx(d2, <<q, r, e>>)>>) : d1 \in {D(1), D(2)}, d2 \in {D(1), D(2)}, p \in ps, q \in ps, r \in ps}
            \cup (IF Deep THEN {J(<<Tx(D(1), <<p, q, e>>), Tx(D(2), <<r, e>>), Tx(D(3), <<s, e>>)>>) : p \in ps, q \in ps, r \in ps, s \in ps} ELSE {}))

(* C05: costs *)
F05 ==
  LET qs == {"1", "-2", "0.5"} \cup (IF Deep THEN {"-0.25", "3"} ELSE {})
      cs == {[t |-> t, q |-> q, c |-> "B"] : t \in {"U", "T"}, q \in {"2", "0.5", "0"}}
      one == {Po("x", "R", Mo(q, "A"), <<c>>, a) : q \in qs, c \in cs, a \in {<<>>, A1}}
      two == {R("y", Mo(q, "B")) : q \in {"2", "-2", "1", "-1", "4", "0.5", "-0.5", "0.25"}} \cup {R("y", <<>>), R("y", A1)}
  IN  Plain({J(<<Tx(D(1), <<p, q>>)>>) : p \in one, q \in two} \cup {J(<<Tx(D(1), <<q, p>>)>>) : p \in one, q \in two})

(* C06: kinds of postings *)
F06 ==
  LET ps == {Po(a, k, m, <<>>, <<>>) : a \in {"x"}, k \in {"R", "V", "B"}, m \in {A1, Am1, <<>>} \cup (IF Deep THEN {Mo("-1", "B")} ELSE {})}
  IN  Plain({J(<<Tx(D(1), s)>>) : s \in SeqsTo(ps, 3)}
            \cup {J(<<Tx(D(1), <<R("x", A1), R("z", <<>>), v>>), Tx(D(2), <<Po("x", "R", Mo("0", "A"), <<>>, Mo(q, "A")), w>>)>>) :
                    v \in {Po("x", k, A1, <<>>, <<>>) : k \in {"V", "R"}} \cup {Po("z", "V", A1, <<>>, <<>>)},
                    w \in {Po("x", "V", A1, <<>>, <<>>), R("x", Mo("0", "A"))}, q \in {"1", "2", "3"}})

(* C07, C08: accounts in a hierarchy *)
Names5 == {"P", "P:Q", "P:Q:S", "P:T", "PQ"} \cup (IF Deep THEN {"P:Q:U", "U:V:W"} ELSE {})
F07 ==
  LET ps == {R(a, m) : a \in Names5, m \in {A1, Am1}}
  IN  {Case(J(<<Tx(D(1), Append(s, R(z, <<>>)))>>), [NoOpt EXCEPT !.depth = d]) : s \in SeqsTo(ps, IF Deep THEN 3 ELSE 2), z \in {"Z", "P:T"}, d \in 0..2}
      \cup (IF Deep THEN {} ELSE {Case(J(<<Tx(D(1), <<R(a, A1), R(b, A1), R(c, m), R("P:Q:U", Mo("1", "B")), R("U:V:W", <<>>)>>)>>), NoOpt) :
              a \in Names5, b \in Names5, c \in Names5, m \in {A1, Am1}})

(* C09, C10: three dated transactions *)
F09 ==
  LET t(d, a, m) == Tx(d, <<R(a, m), R("z", <<>>)>>)
      ds == {D(1), D(2), <<2020, 2, 1>>} \cup (IF Deep THEN {<<2019, 12, 31>>} ELSE {})
  IN  {Case(J(<<t(d1, "x", A1), t(d2, "y", Mo("1", "B")), t(d3, "x", m)>>), [NoOpt EXCEPT !.b = b, !.e = e]) :
         d1 \in ds, d2 \in ds, d3 \in ds, m \in {A1, Am1},
         b \in {<<>>, <<D(1)>>, <<D(2)>>, <<<<2020, 2, 1>>>>}, e \in {<<>>, <<D(2)>>, <<<<2020, 1, 3>>>>}}

(* C11: queries over a fixed journal *)
QJ == J(<<[Tx(D(1), <<[R("Food", A1) EXCEPT !.cs = <<":a:">>], R("Cash", <<>>)>>) EXCEPT !.pay = <<"Shop">>],
          [Tx(D(2), <<R("Rent", A1), [R("Cash", <<>>) EXCEPT !.cs = <<"b: v">>]>>) EXCEPT !.pay = <<"Food">>],
          [Tx(D(3), <<R("food:x", Mo("2", "A")), R("Cash", <<>>)>>) EXCEPT !.cs = <<":b:">>]>>)
Terms == {[k |-> "acc", s |-> "food"], [k |-> "re", s |-> "Food"], [k |-> "pay", s |-> "shop"], [k |-> "tag", s |-> "b"]}
         \cup (IF Deep THEN {[k |-> "acc", s |-> "cash"], [k |-> "tag", s |-> "a"]} ELSE {})
RECURSIVE Queries(_)
Queries(n) ==
  IF n = 1 THEN {<<t>> : t \in Terms}
  ELSE {q \o c \o <<t>> : q \in Queries(n - 1), c \in {<<>>, <<[k |-> "and"]>>, <<[k |-> "or"]>>}, t \in Terms}
F11 == {Case(QJ, [NoOpt EXCEPT !.q = q]) : q \in UNION {Queries(n) : n \in 1..(IF Deep THEN 4 ELSE 3)}}

(* C12: expressions of two operators in both groupings *)
Nu(q) == [o |-> "num", q |-> q]
Am == [o |-> "amount"]
Ar == {"+", "-", "*", "/"}
Cm == {"<", ">", "<=", ">=", "==", "!="}
Bin(op, l, r) == [o |-> op, l |-> l, r |-> r]
Un(op, x) == [o |-> op, x |-> x]
F12 ==
  LET ns == {Nu("2"), Nu("3"), Am}
      ar == {Bin(p, Bin(q, a, b), c) : p \in Ar, q \in Ar, a \in ns, b \in {Nu("2")}, c \in {Nu("3"), Nu("0.5")}} \cup
            {Bin(p, a, Bin(q, b, c)) : p \in Ar, q \in Ar, a \in ns, b \in {Nu("2")}, c \in {Nu("3"), Nu("0.5")}} \cup
            {Un("neg", Bin(p, Nu("2"), Nu("3"))) : p \in Ar} \cup {Bin(p, Un("neg", Nu("2")), Nu("3")) : p \in Ar} \cup
            {Un("abs", Bin(p, Nu("2"), Nu("3"))) : p \in Ar}
      bs == {Bin(">", Am, Nu("0")), Bin("==", Nu("1"), Nu("2")), Bin("=~", [o |-> "account"], [o |-> "re", s |-> "x", ci |-> FALSE])}
      lg == {"and", "or"}
      bo == {Bin(p, Bin(q, a, b), c) : p \in lg, q \in lg, a \in bs, b \in bs, c \in bs} \cup
            {Bin(p, a, Bin(q, b, c)) : p \in lg, q \in lg, a \in bs, b \in bs, c \in bs} \cup
            {Bin(p, Un("not", a), b) : p \in lg, a \in bs, b \in bs} \cup {Un("not", Bin(p, a, b)) : p \in lg, a \in bs, b \in bs} \cup
            {Un("not", Un("not", a)) : a \in bs} \cup {Un("any", a) : a \in bs}
      jj == J(<<Tx(D(1), <<R("x", Mo("6", "A")), R("y", <<>>)>>), Tx(D(2), <<R("x", Mo("-2", "A")), R("y", Mo("1", "A")), R("z", <<>>)>>)>>)
  IN  {Case(jj, [NoOpt EXCEPT !.q = <<[k |-> "expr", e |-> e]>>]) :
         e \in bo \cup {Bin(c, a, Nu(n)) : c \in (IF Deep THEN Cm ELSE {"<", "=="}), a \in ar, n \in {"1", "7"}} \cup {Bin(c, Am, Nu("1")) : c \in Cm}}

(* C13: spellings and declarations of one account and one commodity *)
F13 ==
  LET sp == {"Cash", "cash", "Wallet", "wallet", "Cash:a"}
      cs == {"EUR", "eur", "Euro"}
      dec == {<<>>, <<[k |-> "acc", n |-> "Cash", al |-> <<"Wallet">>, pp |-> <<>>]>>, <<[k |-> "com", n |-> "EUR", al |-> <<"Euro">>]>>,
              <<[k |-> "acc", n |-> "wallet", al |-> <<"cash">>, pp |-> <<>>], [k |-> "com", n |-> "eur", al |-> <<>>]>>}
  IN  Plain({J(IF before THEN d \o <<t>> ELSE <<t>> \o d) :
               before \in BOOLEAN, d \in dec,
               t \in {Tx(D(1), <<R(a, Mo("1", c)), R(b, Mo("2", e)), R("z", <<>>)>>) : a \in sp, b \in sp, c \in cs, e \in cs}})

(* C14: payees and unknown accounts *)
F14 ==
  LET tx(d, p, a) == [Tx(D(1), <<R(a, A1), R("z", <<>>)>>) EXCEPT !.desc = d, !.pay = p]
      pd == {<<>>, <<[k |-> "pay", n |-> "Market", al |-> <<"Mer.*">>]>>, <<[k |-> "pay", n |-> "Market", al |-> <<"Mer.*">>], [k |-> "pay", n |-> "Bar", al |-> <<"Shop$">>]>>}
      ad == {<<>>, <<[k |-> "acc", n |-> "E:Food", al |-> <<>>, pp |-> <<"Market">>]>>,
             <<[k |-> "acc", n |-> "E:Food", al |-> <<>>, pp |-> <<"^Mer">>], [k |-> "acc", n |-> "E:Fun", al |-> <<>>, pp |-> <<"Bar", "Shop">>]>>}
  IN  Plain({J(p \o a \o <<tx(d, y, n), tx("Other", <<"Merc 2">>, n)>>) : p \in pd, a \in ad, d \in {"", "Merc", "The Shop"}, y \in {<<>>, <<"Shop">>, <<"market">>, <<"Bar">>},
              n \in {"E:Unknown", "E:Known"}})

(* C15, C27: include graphs *)
Inc(f) == [k |-> "inc", fs |-> <<f>>]
F15 ==
  LET fs == {"main", "a", "b"}
      t(f) == [Tx(D(1), <<R(f, A1), R("z", <<>>)>>) EXCEPT !.desc = f]
      conts(f) == {<<t(f)>>} \cup UNION {{<<t(f), Inc(g)>>, <<Inc(g), t(f)>>} : g \in fs}
                  \cup (IF Deep THEN {<<Inc(g), t(f), Inc(h)>> : g \in fs, h \in fs} ELSE {<<Inc("a"), t(f), Inc("b")>>})
                  \cup {<<t(f), [k |-> "inc", fs |-> <<"a", "b">>]>>}
  IN  Plain({[main |-> "main", files |-> [main |-> m, a |-> x, b |-> y]] : m \in conts("main"), x \in conts("a"), y \in conts("b")})

(* What the journal is with the contents in place; <<>> when a file includes itself. *)
RECURSIVE Expand(_, _, _)
Expand(j, f, open) ==
  IF f \in open THEN [ok |-> FALSE, s |-> <<>>]
  ELSE LET its == j.files[f]
           part(i) == IF its[i].k = "inc"
                      THEN LET r == [k \in 1..Len(its[i].fs) |-> Expand(j, its[i].fs[k], open \cup {f})]
                           IN  [ok |-> \A k \in 1..Len(r) : r[k].ok, s |-> FlatSeq([k \in 1..Len(r) |-> r[k].s])]
                      ELSE [ok |-> TRUE, s |-> <<its[i]>>]
           ps == [i \in 1..Len(its) |-> part(i)]
       IN  [ok |-> \A i \in 1..Len(ps) : ps[i].ok, s |-> FlatSeq([i \in 1..Len(ps) |-> ps[i].s])]
C15_InPlace ==
  Prop = "C15" /\ Done =>
    LET x == Expand(In, "main", {})
    IN  /\ (pc = "rejected") = ~x.ok
        /\ pc = "ready" => [i \in 1..NT |-> txns[i].desc] = [i \in 1..Len(x.s) |-> x.s[i].desc]

(* C16: automated transactions *)
Auto(q, ps) == [k |-> "auto", q |-> q, cs |-> <<>>, ps |-> ps]
Ap(a, k, m, q, c) == [a |-> a, k |-> k, m |-> m, q |-> q, c |-> c, e |-> Nu("0")]
F16 ==
  LET qs == {<<[k |-> "acc", s |-> "x"]>>, <<[k |-> "acc", s |-> "z"]>>, <<[k |-> "acc", s |-> "auto"]>>,
             <<[k |-> "expr", e |-> Bin(">", Am, Nu("0"))]>>}
      pss == {<<Ap("auto:v", "V", "mul", "2", "")>>, <<Ap("auto:x", "R", "mul", "0.5", ""), Ap("x", "R", "mul", "-0.5", "")>>,
              <<Ap("x", "R", "fix", "1", "A")>>, <<Ap("auto:b", "B", "fix", "1", "C"), Ap("auto:c", "B", "fix", "-1", "C")>>}
      autos == {Auto(q, p) : q \in qs, p \in pss}
      ts == {<<R("x", A1), R("z", <<>>)>>, <<R("x", A1), R("x", Mo("1", "B")), R("z", <<>>)>>, <<Po("x", "R", A1, <<>>, A1), R("z", Am1)>>,
             <<R("x", A1), R("y", Mo("-2", "B"))>>}
  IN  Plain({J(<<au, Tx(D(1), s)>>) : au \in autos, s \in ts} \cup
            {J(<<Tx(D(1), s), au, a2>>) : au \in autos, a2 \in (IF Deep THEN autos ELSE {Auto(<<[k |-> "acc", s |-> "x"]>>, <<Ap("x", "V", "mul", "3", "")>>)}), s \in ts})

(* C17, C18: prices from directives, costs and exchanges *)
Pr(d, c, q, to) == [k |-> "price", date |-> d, c |-> c, q |-> q, to |-> to]
F17 ==
  LET ps == {Pr(D(1), "A", "2", "B"), Pr(D(2), "A", "3", "B"), Pr(D(1), "B", "0.5", "A"), Pr(D(3), "C", "4", "B")}
      ts == {<<Po("x", "R", Mo("-2", "A"), <<[t |-> "T", q |-> "5", c |-> "B"]>>, <<>>), R("z", <<>>)>>,
             <<Po("x", "R", Mo("2", "A"), <<[t |-> "U", q |-> "5", c |-> "B"]>>, <<>>), R("z", Mo("-10", "B"))>>,
             <<R("x", A1), R("y", Mo("-2", "B"))>>, <<R("x", A1), R("y", Mo("-2", "B")), R("w", Mo("1", "C"))>>, <<R("x", Mo("1", "C")), R("z", <<>>)>>}
  IN  Plain({J(<<p, q, Tx(D(1), t), Tx(D(2), u)>>) : p \in ps, q \in ps, t \in ts, u \in ts})
F18 ==
  LET cs == {"A", "B", "C"}
      prs == {Pr(d, c, q, to) : d \in {D(1), D(2)}, c \in cs, to \in cs \ {"A"}, q \in {"2"} \cup (IF Deep THEN {"0.5"} ELSE {})}
      ok == {p \in prs : p.c # p.to}
      t == Tx(D(1), <<R("x", Mo("1", "A")), R("x", Mo("2", "B")), R("y", Mo("3", "C")), R("z", <<>>)>>)
  IN  {Case(J(<<[p EXCEPT !.q = "3"], q, r, t>>), [NoOpt EXCEPT !.x = x]) : p \in ok, q \in ok, r \in {Pr(D(1), "B", "5", "C"), Pr(D(1), "A", "7", "C")}, x \in {"A", "C"}}

(* C19: thousandths *)
Dec3(n) == LET m == IF n < 0 THEN -n ELSE n
               f == m % 1000
           IN  (IF n < 0 THEN "-" ELSE "") \o ToString(m \div 1000) \o "." \o (IF f < 10 THEN "00" ELSE IF f < 100 THEN "0" ELSE "") \o ToString(f)
F19 == Plain({J(<<Tx(D(1), <<R("x", Mo(Dec3(n), "A")), R("y", Mo(Dec3(m), "A")), R("z", <<>>)>>)>>) :
                n \in (IF Deep THEN (-1012)..1012 ELSE (-12)..12 \cup (990..1010) \cup ((-1010)..(-990))), m \in {1, -4, 5}})
C19_Rounded ==      \* the display is within half a cent and has the right sign
  Prop = "C19" /\ Ready =>
    \A p \in Rng(txns[1].ps) :
      LET q == p.amt[1].q
          s == RShow(q, 2)
          v == RDec(s)
      IN  /\ RLeq(RAbs(RSub(v, q)), RDec("0.005"))
          /\ StartsWith(s, "-") = (RSign(v) < 0)
          /\ RSign(v) \in {0, RSign(q)}
          /\ (RAbs(RSub(v, q)) = RDec("0.005") => RLess(RAbs(q), RAbs(v)))

(* C20: short texts after an account name *)
Toks == {"1", "-", ".", "E", " ", "@", "=", "\"", "0"} \cup (IF Deep THEN {";", "(", ","} ELSE {})
RECURSIVE Texts(_)
Texts(n) == IF n = 0 THEN {""} ELSE LET W == Texts(n - 1) IN W \cup {w \o t : w \in W, t \in Toks}
F20 == Plain({J(<<Tx(D(1), <<[a |-> "x", k |-> "R", raw |-> w, cs |-> <<>>], R("z", <<>>)>>)>>) :
                w \in {x \in Texts(IF Deep THEN 5 ELSE 4) : x # "" /\ (\A i \in 1..(Len(x) - 2) : SubSeq(x, i, i + 2) # "\" \"") /\ Ch(x, 1) # " " /\ Ch(x, Len(x)) # " "}})

(* C21: one journal in several orders *)
Perms(S) == {f \in [1..Cardinality(S) -> S] : \A i, j \in 1..Cardinality(S) : i # j => f[i] # f[j]}
Base21 == <<Tx(D(1), <<R("x", A1), R("z", <<>>)>>), Tx(D(2), <<Po("x", "R", <<>>, <<>>, Mo("3", "A")), R("w", <<>>)>>),
            Tx(D(3), <<Po("x", "R", Mo("0", "A"), <<>>, Mo("3", "A")), R("y", Mo("0", "B"))>>),
            Pr(D(1), "A", "2", "B"), [k |-> "acc", n |-> "W", al |-> <<"zz">>, pp |-> <<>>]>>
F21 == Plain({J([i \in 1..5 |-> Base21[f[i]]]) : f \in Perms(1..5)})
C21_Order ==
  Prop = "C21" /\ Done =>
    /\ pc = "ready"
    /\ [i \in 1..3 |-> txns[i].date] = <<D(1), D(2), D(3)>>
    /\ bal["x"] = BSum(<<Money("3", "a")>>) /\ bal["w"] = BSum(<<Money("-2", "a")>>)

(* C23: comments *)
CToks == {":", "a", " ", "b"}
RECURSIVE Comments(_)
Comments(n) == IF n = 0 THEN {""} ELSE LET W == Comments(n - 1) IN W \cup {w \o t : w \in W, t \in CToks}
F23 ==
  LET com(where, c) == J(<<IF where = "t" THEN [Tx(D(1), <<R("x", A1), R("z", <<>>)>>) EXCEPT !.cs = <<c>>]
                           ELSE Tx(D(1), <<IF where = "p" THEN [R("x", A1) EXCEPT !.cs = <<c>>] ELSE R("x", A1),
                                           IF where = "e" THEN [R("z", <<>>) EXCEPT !.cs = <<c>>] ELSE R("z", <<>>)>>),
                           Tx(D(2), <<R("y", A1), R("z", <<>>)>>)>>)
  IN  {Case(com(w, c), [NoOpt EXCEPT !.q = <<[k |-> "tag", s |-> "a"]>>]) : w \in {"t", "p", "e"}, c \in {x \in Comments(IF Deep THEN 6 ELSE 4) : x # ""}}
C23_Where ==        \* tags reach the postings they are written for, and no others
  Prop = "C23" /\ Ready =>
    LET tags(t) == IF t.k = "txn" THEN TagsIn(t.cs) ELSE <<>>
    IN  \A i \in 1..NT : \A p \in Rng(txns[i].ps) :
          LET src == led.txns[i].ps
              mine == CHOOSE q \in Rng(src) : KeyOf(tabs.acc, q.a) = p.a
          IN  p.tags = TagsIn(led.txns[i].cs) \o TagsIn(mine.cs)

(* C24: an error at any position *)
F24 ==
  LET good(n) == Tx(D(n), <<R("x", A1), R("z", <<>>)>>)
      bads == {Tx(D(2), <<R("x", A1)>>), Tx(D(2), <<R("x", <<>>), R("y", <<>>)>>), Tx(<<2020, 2, 30>>, <<R("x", A1), R("z", <<>>)>>),
               Tx(D(2), <<Po("x", "R", A1, <<>>, Mo("9", "A")), R("z", <<>>)>>), Tx(D(2), <<Po("x", "B", A1, <<>>, <<>>)>>), Tx(D(2), <<Po("x", "V", <<>>, <<>>, <<>>)>>),
               Tx(D(2), <<[a |-> "x", k |-> "R", raw |-> "1 A 2", cs |-> <<>>], R("z", <<>>)>>), [k |-> "bad"], Inc("main"), Pr(<<2020, 13, 1>>, "A", "1", "B"),
               Tx(D(2), <<Po("x", "R", Mo("0", "A"), <<[t |-> "T", q |-> "1", c |-> "B"]>>, <<>>), R("z", <<>>)>>)}
      pads == {<<>>, <<good(1)>>, <<good(3)>>, <<good(3), Pr(D(1), "A", "2", "B")>>, <<Auto(<<[k |-> "acc", s |-> "x"]>>, <<Ap("v", "V", "mul", "1", "")>>)>>}
  IN  Plain({J(a \o <<b>> \o c) : a \in pads, b \in bads \cup {good(2)}, c \in pads})
C24_Verdict ==
  Prop = "C24" /\ Done /\ ~nc =>
    LET its == In.files["main"]
        fine(it) == it.k \in {"auto"} \/ (it.k = "txn" /\ it.date[2] = 1 /\ Len(it.ps) = 2 /\ "amt" \in DOMAIN it.ps[1] /\ it.ps[1].amt = A1 /\ it.ps[1].asr = <<>>)
                  \/ (it.k = "price" /\ ValidDate(it.date))
    IN  (pc = "ready") = (\A i \in 1..Len(its) : fine(its[i]))

(* C26: what is listed *)
F26 ==
  LET opt(x) == {<<>>, <<x>>}
  IN  Plain({J(a \o b \o c \o d \o e) : a \in opt([k |-> "acc", n |-> "Only", al |-> <<"o">>, pp |-> <<>>]), b \in opt([k |-> "com", n |-> "XAU", al |-> <<>>]),
              c \in opt([k |-> "pay", n |-> "Zed", al |-> <<"D.*">>]), d \in opt(Pr(D(1), "A", "1", "q")) \cup opt(Auto(<<[k |-> "acc", s |-> "none"]>>, <<Ap("v", "V", "fix", "1", "W")>>)),
              e \in UNION {opt([Tx(D(1), <<R(n, Mo("1", m)), R("z", <<>>)>>) EXCEPT !.desc = s]) : n \in {"x", "X:y", "o"}, m \in {"A", "a", "xau"}, s \in {"Dune", "zed", ""}}})

(* C28: every day of some months, and days that do not exist *)
F28 == Plain({J(<<Tx(<<y, m, d>>, <<R("x", A1), R("z", <<>>)>>)>>) :
                y \in {2019, 2020, 1900, 2000} \cup (IF Deep THEN {1, 999, 2100, 9999, 2400} ELSE {}), m \in (IF Deep THEN 1..12 ELSE {1, 2, 4, 12}), d \in 1..31})
C28_Calendar ==     \* consecutive days have consecutive numbers
  Prop = "C28" /\ Ready =>
    LET d == txns[1].date
        next == IF d[3] < DaysIn(d[1], d[2]) THEN <<d[1], d[2], d[3] + 1>>
                ELSE IF d[2] < 12 THEN <<d[1], d[2] + 1, 1>> ELSE <<d[1] + 1, 1, 1>>
    IN  ValidDate(next) /\ Ordinal(next) = Ordinal(d) + 1

Family ==
  CASE Prop = "C01" -> F01 [] Prop = "C02" -> F02 [] Prop = "C03" -> F03 [] Prop = "C04" -> F04 [] Prop = "C05" -> F05
    [] Prop = "C06" -> F06 [] Prop \in {"C07", "C08"} -> F07 [] Prop \in {"C09", "C10"} -> F09 [] Prop = "C11" -> F11
    [] Prop = "C12" -> F12 [] Prop = "C13" -> F13 [] Prop = "C14" -> F14 [] Prop \in {"C15", "C27"} -> F15 [] Prop = "C16" -> F16
    [] Prop = "C17" -> F17 [] Prop = "C18" -> F18 [] Prop = "C19" -> F19 [] Prop = "C20" -> F20 [] Prop = "C21" -> F21
    [] Prop = "C23" -> F23 [] Prop = "C24" -> F24 [] Prop = "C26" -> F26 [] Prop = "C28" -> F28

------------------------------------------------------------------------------
Init == \E c \in Family : \E n \in (IF Prop \in {"C03", "C04"} THEN BOOLEAN ELSE {FALSE}) : InitWith(c, n)
Next == LoadNext
Fair == Init /\ [][Next]_vars /\ WF_vars(Next)
Ends == <>Done

(* The load never gets stuck *)
Goes == Done \/ ENABLED LoadNext

ReportProps ==
  Ready /\ Good(id.o) =>
    /\ C07_Flat(id.o) /\ C08_Tree(id.o) /\ C09_Total(id.o)
    /\ \A d \in {D(1), D(2), <<2020, 2, 1>>} : C10_Split(id.o, d)
    /\ Prop = "C11" /\ Len(id.o.q) > 1 => \A t1 \in Terms : C11_Terms(t1, id.o.q[1])
    /\ Prop = "C18" =>
         LET f == AccountSums(Pick(NoOpt))
             rs == RateSets(UNION {DOMAIN f[a] : a \in DOMAIN f}, KeyOf(tabs.com, id.o.x), 1000000)
             r == [c \in DOMAIN rs |-> IF rs[c] = {} THEN <<>> ELSE <<CHOOSE v \in rs[c] : TRUE>>]
         IN  \A a, b \in DOMAIN f : C18_Linear(f[a], f[b], KeyOf(tabs.com, id.o.x), r)

Dump == Emit /\ Done => PrintT("@@" \o ToJson([in |-> id.in, o |-> id.o, nc |-> nc, pc |-> pc, why |-> why]))
==============================================================================
