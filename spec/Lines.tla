-------------------------------- MODULE Lines --------------------------------
(* How the lines of a file group into entries.  A line is one of the kinds      *)
(*   "b" empty      "w" blanks only       "c" comment in the first column        *)
(*   "h" header of a transaction          "d" price directive                    *)
(*   "a" account directive                "g" other text in the first column     *)
(*   "p" indented virtual posting with amount  "r" indented real posting          *)
(*   "e" indented posting without amount  "i" indented comment                    *)
(*   "s" indented "alias NAME"            "n" indented number                      *)
(* One action per line; an error ends the scan.                                   *)
EXTENDS Integers, Sequences, TLC, Json, FiniteSets
CONSTANTS Deep, Emit

VARIABLES lines, pos, ctx, items
lvars == <<lines, pos, ctx, items>>

Kinds == {"b", "w", "c", "h", "d", "a", "g", "p", "r", "e", "i", "s", "n"}
Few == {"b", "c", "h", "r", "e", "i", "s", "a"}

Mo(q, c) == <<[q |-> q, c |-> c]>>
Post(a, k, m, cs) == [a |-> a, k |-> k, amt |-> m, cost |-> <<>>, asr |-> <<>>, cs |-> cs]
Txn(n) == [k |-> "txn", date |-> <<2020, 1, n>>, desc |-> "d", pay |-> <<>>, cs |-> <<>>, ps |-> <<>>]
Acc(n) == [k |-> "acc", n |-> "Ac" \o ToString(n), al |-> <<>>, pp |-> <<>>]
Pri(n) == [k |-> "price", date |-> <<2020, 1, n>>, c |-> "A", q |-> "2", to |-> "B"]
Tag == ":t:"
Bad == [k |-> "bad"]

Indented == {"p", "r", "e", "i", "s", "n"}
Top(s) == s[Len(s)]
Edit(s, x) == [s EXCEPT ![Len(s)] = x]
AddPost(s, p) == Edit(s, [Top(s) EXCEPT !.ps = Append(@, p)])
AddCom(s) == LET t == Top(s) IN
             IF t.ps = <<>> THEN Edit(s, [t EXCEPT !.cs = Append(@, Tag)])
             ELSE Edit(s, [t EXCEPT !.ps[Len(t.ps)].cs = Append(@, Tag)])

(* One line of kind k, number n, in state [ctx, items] *)
Step(st, k, n) ==
  LET to(c, s) == [ctx |-> c, items |-> s]
      s == st.items
  IN
  CASE st.ctx = "error" -> st
    [] k \in {"b", "w"} -> st
    [] k = "c" -> to("top", s)
    [] k = "h" -> to("txn", Append(s, Txn(n)))
    [] k = "a" -> to("acc", Append(s, Acc(n)))
    [] k = "d" -> to("top", Append(s, Pri(n)))
    [] k = "g" -> to("error", Append(s, Bad))
    [] k \in Indented /\ st.ctx = "top" -> to("error", Append(s, Bad))
    [] st.ctx = "txn" /\ k = "p" -> to("txn", AddPost(s, Post("v", "V", Mo("1", "A"), <<>>)))
    [] st.ctx = "txn" /\ k = "r" -> to("txn", AddPost(s, Post("x", "R", Mo("2", "A"), <<>>)))
    [] st.ctx = "txn" /\ k = "e" -> to("txn", AddPost(s, Post("z", "R", <<>>, <<>>)))
    [] st.ctx = "txn" /\ k = "s" -> to("txn", AddPost(s, Post("alias Al" \o ToString(n), "R", <<>>, <<>>)))
    [] st.ctx = "txn" /\ k = "i" -> to("txn", AddCom(s))
    [] st.ctx = "acc" /\ k = "i" -> st
    [] st.ctx = "acc" /\ k = "s" -> to("acc", Edit(s, [Top(s) EXCEPT !.al = Append(@, "Al" \o ToString(n))]))
    [] OTHER -> to("error", Append(s, Bad))

Start == [ctx |-> "top", items |-> <<>>]
RECURSIVE Scan(_, _)          \* numbered lines from a state
Scan(ls, st) == IF ls = <<>> THEN st ELSE Scan(Tail(ls), Step(st, ls[1].k, ls[1].n))

(* Lines keep their number when others are inserted. *)
Number(s) == [i \in 1..Len(s) |-> [k |-> s[i], n |-> i]]
Texts == UNION {[1..n -> Kinds] : n \in 0..3} \cup [1..(IF Deep THEN 5 ELSE 4) -> Few]

Init == lines \in {Number(t) : t \in Texts} /\ pos = 0 /\ ctx = "top" /\ items = <<>>
Read ==
  /\ pos < Len(lines) /\ ctx # "error"
  /\ LET st == Step([ctx |-> ctx, items |-> items], lines[pos + 1].k, lines[pos + 1].n)
     IN  ctx' = st.ctx /\ items' = st.items
  /\ pos' = pos + 1 /\ UNCHANGED lines
Spec == Init /\ [][Read]_lvars /\ WF_lvars(Read)
Over == pos = Len(lines) \/ ctx = "error"
Ends == <>Over

Result(ls) == Scan(ls, Start).items
Insert(ls, i, l) == SubSeq(ls, 1, i) \o <<l>> \o SubSeq(ls, i + 1, Len(ls))
L(k) == [k |-> k, n |-> 9]

Agrees == items = Scan(SubSeq(lines, 1, pos), Start).items
(* Blank lines anywhere mean nothing. *)
BlanksMeanNothing == Over => \A i \in 0..Len(lines) : \A k \in {"b", "w"} : Result(Insert(lines, i, L(k))) = Result(lines)
(* Comments in the first column mean nothing between entries. *)
CommentsMeanNothing ==
  Over => \A i \in 0..Len(lines) :
    (\A j \in (i + 1)..Len(lines) : (\A m \in (i + 1)..(j - 1) : lines[m].k \in {"b", "w"}) => lines[j].k \notin Indented)
      => Result(Insert(lines, i, L("c"))) = Result(lines)
(* Nothing is lost and nothing is invented. *)
Count(K) == Cardinality({i \in 1..Len(lines) : lines[i].k \in K})
RECURSIVE Sum(_, _)
Sum(s, i) == IF i > Len(s) THEN 0 ELSE (IF s[i].k = "txn" THEN Len(s[i].ps) ELSE IF s[i].k = "acc" THEN Len(s[i].al) ELSE 0) + Sum(s, i + 1)
Conserved ==
  Over /\ ctx # "error" =>
    /\ Len(items) = Count({"h", "a", "d"})
    /\ Sum(items, 1) = Count({"p", "r", "e", "s"})
    /\ Count({"g", "n"}) = 0
Dump == Emit /\ Over => PrintT("@@" \o ToJson([lines |-> lines, in |-> [main |-> "main", files |-> [main |-> items]], pc |-> ctx]))
==============================================================================
