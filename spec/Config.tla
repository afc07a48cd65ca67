------------------------------- MODULE Config --------------------------------
(* Options: what the command line and the init files of a run amount to.       *)
(*                                                                             *)
(* A run may carry cfg = [flag, home, cwd], each <<>> or <<lines>>: the init     *)
(* file named on the command line, ~/.ledgerrc and ./.ledgerrc; and cli, the     *)
(* options given on the command line.  A line is [k |-> "opt", n, i, d, s] (an   *)
(* option by its long name, with its value as integer, date or string),          *)
(* [k |-> "nop"] (comment or blank) or [k |-> "bad"].  Options on the command    *)
(* line have the same shape.                                                    *)
EXTENDS Reports

Chosen(run) ==
  IF run.cfg.flag # <<>> THEN run.cfg.flag[1]
  ELSE IF run.cfg.home # <<>> THEN run.cfg.home[1]
  ELSE IF run.cfg.cwd # <<>> THEN run.cfg.cwd[1] ELSE <<>>

OptNames(ls) == {ls[i].n : i \in {j \in 1..Len(ls) : ls[j].k = "opt"}}
FirstOpt(ls, n) == ls[CHOOSE i \in 1..Len(ls) : /\ ls[i].k = "opt" /\ ls[i].n = n
                                                /\ \A j \in 1..(i - 1) : ls[j].k # "opt" \/ ls[j].n # n]

(* What is meant: the command line, and what the init file says besides.        *)
Meant(run) ==
  LET c == Chosen(run)
      names == OptNames(run.cli) \cup OptNames(c)
  IN  [n \in names |-> IF n \in OptNames(run.cli) THEN FirstOpt(run.cli, n) ELSE FirstOpt(c, n)]

BadInit(run) == \E i \in 1..Len(Chosen(run)) : Chosen(run)[i].k = "bad"

Common == {"file", "depth", "begin", "end", "real", "no-balance-check", "init-file", "now", "period", "date-format", "effective", "strict",
           "force-color", "force-pager", "unrealized-gains", "unrealized-losses"}
ForBalance == Common \cup {"flat", "no-total"}
Accepted(cmd) == IF cmd = "bal" THEN ForBalance ELSE Common

HasCfg(run) == "cfg" \in DOMAIN run
Fits(run, m) ==
  /\ DOMAIN m \subseteq Accepted(run.cmd)
  /\ "file" \in DOMAIN m /\ m["file"].s = In.main
  /\ "depth" \in DOMAIN m => m["depth"].i >= 0
  /\ "begin" \in DOMAIN m => ValidDate(m["begin"].d)
  /\ "end" \in DOMAIN m => ValidDate(m["end"].d)

(* <<options>>, or <<>> when the run has to fail *)
EffectiveOptions(run) ==
  IF ~HasCfg(run) THEN <<run.o>>
  ELSE LET m == Meant(run)
           on(n) == n \in DOMAIN m
       IN  IF BadInit(run) \/ ~Fits(run, m) THEN <<>>
           ELSE <<[b |-> IF on("begin") THEN <<m["begin"].d>> ELSE <<>>, e |-> IF on("end") THEN <<m["end"].d>> ELSE <<>>,
                   real |-> on("real"), q |-> run.o.q, flat |-> on("flat"), depth |-> IF on("depth") THEN m["depth"].i ELSE 0,
                   x |-> run.o.x, total |-> ~on("no-total")]>>

(* Are balance checks off? *)
NcOf(run) == IF HasCfg(run) THEN run.cmd # "check" /\ "no-balance-check" \in DOMAIN Meant(run) ELSE run.nc
==============================================================================
