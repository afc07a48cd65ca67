-------------------------------- MODULE Names --------------------------------
(* Resolution of account, commodity and payee names.                          *)
(*                                                                            *)
(* A declaration is [n |-> name, al |-> sequence of aliases, ...].  A name is  *)
(* identified by its key: the declared name, or else the name itself, in      *)
(* lower case.                                                                *)
EXTENDS Text, TLC

(* Declarations that count: the first one for each name (ignoring case). *)
RECURSIVE FirstDecls(_, _)
FirstDecls(ds, i) ==
  IF i > Len(ds) THEN <<>>
  ELSE (IF \E j \in 1..(i - 1) : Lower(ds[j].n) = Lower(ds[i].n) THEN <<>> ELSE <<ds[i]>>)
         \o FirstDecls(ds, i + 1)

(* The table of a sequence of declarations. *)
Table(ds) ==
  LET f == FirstDecls(ds, 1)
      nm == {Lower(f[i].n) : i \in 1..Len(f)}
      als == UNION {{<<Lower(f[i].al[j]), i>> : j \in 1..Len(f[i].al)} : i \in 1..Len(f)}
      keys == {x[1] : x \in als}
      last(a) == CHOOSE i \in 1..Len(f) :
                   <<a, i>> \in als /\ \A x \in als : x[1] = a => x[2] <= i
  IN  [names |-> nm,
       decl |-> [k \in nm |-> f[CHOOSE i \in 1..Len(f) : Lower(f[i].n) = k]],
       alias |-> [a \in keys |-> Lower(f[last(a)].n)]]

KeyOf(tab, n) ==
  LET l == Lower(n)
  IN  IF l \in tab.names THEN l ELSE IF l \in DOMAIN tab.alias THEN tab.alias[l] ELSE l

(* Names that may be shown for key k, when the spellings in S are used. *)
Shown(tab, S, k) ==
  IF k \in tab.names THEN {tab.decl[k].n} ELSE {s \in S : Lower(s) = k}

(* Payees: a name that is neither declared nor an alias may match an alias     *)
(* pattern of a declared payee (the first one in alphabetical order).          *)
PayeeHits(tab, n) ==
  {k \in tab.names : \E j \in 1..Len(tab.decl[k].al) : Matches(tab.decl[k].al[j], FALSE, n)}
PayeeKey(tab, n) ==
  LET l == Lower(n)
      h == PayeeHits(tab, n)
  IN  IF l \in tab.names THEN l
      ELSE IF l \in DOMAIN tab.alias THEN tab.alias[l]
      ELSE IF h # {} THEN MinStr(h)
      ELSE l
PayeeName(tab, n) ==
  LET k == PayeeKey(tab, n) IN IF k \in tab.names THEN tab.decl[k].n ELSE n
==============================================================================
