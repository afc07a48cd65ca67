------------------------------ MODULE MC_Config ------------------------------
(* Start-up: the program looks for an init file, walks through its lines and    *)
(* appends the options that the command line does not have.  Whatever the files *)
(* and the command line, this ends, and what results is what is meant.          *)
EXTENDS Config, Json
CONSTANTS Deep, Emit

O(n, i, d, s) == [k |-> "opt", n |-> n, i |-> i, d |-> d, s |-> s]
None == <<1, 1, 1>>
Depth(i) == O("depth", i, None, "")
Begin(d) == O("begin", 0, d, "")
Flag(n) == O(n, 0, None, "")
File(f) == O("file", 0, None, f)
Nop == [k |-> "nop"]
Bad == [k |-> "bad"]
Lines == {Depth(1), Depth(2), Begin(<<2020, 1, 2>>), Flag("flat"), Flag("no-balance-check"), File("main"), File("none"), Nop, Bad}
Two == {<<>>} \cup {<<a>> : a \in Lines} \cup {<<a, b>> : a \in Lines, b \in Lines}
Cli == {<<>>, <<Depth(1)>>, <<Begin(<<2020, 1, 1>>)>>, <<Flag("flat")>>, <<Flag("no-total"), Depth(2)>>, <<Flag("no-balance-check")>>}
Maybe(S) == {<<>>} \cup {<<x>> : x \in S}
Files ==
  {[flag |-> f, home |-> <<>>, cwd |-> <<>>] : f \in Maybe(Two)} \cup
  {[flag |-> f, home |-> h, cwd |-> c] : f \in Maybe({<<Depth(1)>>, <<>>}), h \in Maybe({<<Depth(2)>>, <<Nop, Flag("flat")>>}), c \in Maybe({<<Bad>>, <<Flag("real")>>})}
CfgRuns ==
  {[cmd |-> m, cfg |-> f, cli |-> c \o g, o |-> [q |-> <<>>, x |-> ""], nc |-> FALSE] :
     m \in (IF Deep THEN {"bal", "reg"} ELSE {"bal"}), f \in Files, c \in Cli, g \in {<<>>, <<File("main")>>}}

VARIABLES run, step, where, line, args
cvars == <<run, step, where, line, args>>
Places == <<"flag", "home", "cwd">>

CInit ==
  /\ run \in CfgRuns
  /\ step = "look" /\ where = 1 /\ line = 1 /\ args = run.cli
  /\ InitWith([in |-> [main |-> "main", files |-> [main |-> <<>>]]], FALSE)

Look ==
  /\ step = "look"
  /\ IF where > 3 THEN step' = "done" /\ UNCHANGED where
     ELSE IF run.cfg[Places[where]] = <<>> THEN where' = where + 1 /\ UNCHANGED step
     ELSE step' = "walk" /\ UNCHANGED where
  /\ UNCHANGED <<run, line, args>>
Walk ==
  /\ step = "walk"
  /\ LET ls == run.cfg[Places[where]][1]
     IN  IF line > Len(ls) THEN step' = "done" /\ UNCHANGED <<line, args>>
         ELSE IF ls[line].k = "bad" THEN step' = "fail" /\ UNCHANGED <<line, args>>
         ELSE /\ line' = line + 1 /\ UNCHANGED step
              /\ args' = IF ls[line].k = "opt" /\ (\A i \in 1..Len(args) : args[i].n # ls[line].n) THEN Append(args, ls[line]) ELSE args
  /\ UNCHANGED <<run, where>>
CNext == (Look \/ Walk) /\ UNCHANGED vars
CSpec == CInit /\ [][CNext]_<<cvars, vars>> /\ WF_<<cvars, vars>>(CNext)
CInput(i) == i.in
Over == step \in {"done", "fail"}
Ends == <>Over

AsMeant ==
  /\ step = "fail" => EffectiveOptions(run) = <<>>
  /\ step = "done" => /\ ~BadInit(run)
                      /\ {args[i].n : i \in 1..Len(args)} = DOMAIN Meant(run)
                      /\ \A i \in 1..Len(args) : args[i] = Meant(run)[args[i].n]
CliWins == step = "done" => \A i \in 1..Len(run.cli) : Meant(run)[run.cli[i].n] = run.cli[i]
OneFile == Over /\ run.cfg.flag # <<>> => EffectiveOptions(run) = EffectiveOptions([run EXCEPT !.cfg.home = <<>>, !.cfg.cwd = <<>>])
AsGiven ==          \* the same options on the command line
  step = "done" => EffectiveOptions(run) = EffectiveOptions([run EXCEPT !.cli = args, !.cfg = [flag |-> <<>>, home |-> <<>>, cwd |-> <<>>]])
Dump == Emit /\ Over => PrintT("@@" \o ToJson([run |-> run, fails |-> EffectiveOptions(run) = <<>>]))
==============================================================================
