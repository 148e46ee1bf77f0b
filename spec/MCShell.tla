------------------------------- MODULE MCShell -------------------------------
(***************************************************************************)
(* The shell on a small scale: a failing command changes nothing, readers   *)
(* change nothing, pushing and popping is the identity, a loop does exactly *)
(* what its body written out does, layout does not change what is run.      *)
(* With -simulate the histories are printed for the replay in the real code.*)
(***************************************************************************)
EXTENDS Shell, Json
CONSTANTS START, CMDS, MAXSTACK, MAXBODY, MAXOPS, EMIT
VARIABLES vShell, vCmd, vSaid, vErrs, vHist
shellVars == <<vShell, vCmd, vSaid, vErrs, vHist>>
MCSizes == {<<1, 1>>, <<1, 2>>, <<2, 1>>}
GenSizes == {<<1, 1>>, <<1, 2>>, <<2, 1>>, <<2, 2>>, <<3, 3>>}
Tiny == NewBoard(1, 2)
Normal == NewBoard(3, 3)
NoObs == [on |-> FALSE]
Opts == [empty |-> "0", nsep |-> <<>>, ssep |-> "|", csep |-> ",", box |-> <<>>]
Rec(o) == [op |-> o]
SmallCmds ==
    {Rec("loop end"), Rec("push"), Rec("exit"), Rec("fail"), Rec("bad"), Rec("solve"), Rec("print"),
     [op |-> "new", w |-> 1, h |-> 1], [op |-> "new", w |-> 1, h |-> 2],
     [op |-> "decode", t |-> <<"2", "0", "0", "1">>, o |-> Opts],
     [op |-> "decode", t |-> <<"1", "2">>, o |-> Opts],
     [op |-> "set", r |-> 0, c |-> 0, v |-> 2], [op |-> "set", r |-> 1, c |-> 1, v |-> 1],
     [op |-> "init_candidates", filled |-> FALSE],
     [op |-> "remove_candidates", r |-> 0, c |-> 1, s |-> <<1>>],
     [op |-> "get", r |-> 1, c |-> 0],
     [op |-> "pop", last |-> TRUE, i |-> 0], [op |-> "pop", last |-> FALSE, i |-> 0],
     [op |-> "loop", n |-> 2], [op |-> "loop", n |-> 0]}
FewCmds == {c \in SmallCmds :
    \/ c.op \in {"loop end", "push", "exit", "fail", "bad", "print", "init_candidates", "pop"}
    \/ c.op = "new" /\ c.h = 1
    \/ c.op = "decode" /\ Len(c.t) = 2
    \/ c.op = "set" /\ c.r = 0
    \/ c.op = "loop" /\ c.n = 2}
Init == /\ vShell = ShellWith(START) /\ vCmd = Rec("none") /\ vSaid = <<>> /\ vErrs = 0 /\ vHist = <<>>
Give(c) ==
    /\ vShell.on
    /\ \E o \in Process(vShell, c, NoObs, TRUE) :
        /\ vShell' = o.st /\ vSaid' = o.out /\ vErrs' = o.err
    /\ vCmd' = c
    /\ vHist' = IF EMIT THEN Append(vHist, c) ELSE vHist
Next == \E c \in CMDS : Give(c)
Bound == /\ Len(vShell.stack) <= MAXSTACK /\ Len(vShell.body) <= MAXBODY
\* what was printed last is no part of the state
View == vShell

Kept(st, x) == st.cur = x.cur /\ st.stack = x.stack
ErrorsKeep == [][vErrs' > 0 /\ vCmd'.op # "loop end" => vShell' = vShell]_shellVars
Readers == {"get", "get_candidates", "encode", "print", "view", "help", "stack", "clear", "fail", "bad"}
ReadersKeep == [][vCmd'.op \in Readers => Kept(vShell, vShell')]_shellVars
Defining == [][vShell.n > 0 /\ vCmd'.op # "loop end" => Kept(vShell, vShell') /\ vSaid' = <<>>]_shellVars
ExitWorks == [][vCmd'.op = "exit" => ~vShell'.on /\ vErrs' = 0]_shellVars
EndEnds == [][vCmd'.op = "loop end" /\ vShell.n > 0 => vShell'.n = 0 /\ vShell'.body = <<>>]_shellVars
\* what is under the top of the stack stays (pop takes one away)
Independent == [][vCmd'.op \in {"set", "init_candidates", "remove_candidates", "new", "decode", "solve"}
                    => vShell'.stack = vShell.stack]_shellVars

Idle == vShell.n = 0 /\ vShell.on
PushPop == Idle =>
    LET two == ProcessAll({Outcome(vShell, <<>>, 0)},
                          <<Rec("push"), [op |-> "pop", last |-> TRUE, i |-> 0]>>, NoObs, TRUE)
    IN two = {Outcome(vShell, <<>>, 0)}
\* the loop does what its body written out does
Written(body, k) == FoldLeft(LAMBDA acc, x : acc \o body, <<>>, [j \in 1..k |-> j])
Unrolled == vShell.n > 0 /\ vShell.on =>
    LET out == [vShell EXCEPT !.n = 0, !.body = <<>>]
    IN /\ Process(vShell, Rec("loop end"), NoObs, TRUE) =
            ProcessAll({Outcome(out, <<>>, 0)}, Written(vShell.body, vShell.n), NoObs, TRUE)
       \* without a terminal the first error stops both
       /\ {<<o.st.dead, o.out, o.st.cur>> : o \in Process(vShell, Rec("loop end"), NoObs, FALSE)} =
          {<<o.st.dead, o.out, o.st.cur>> :
              o \in ProcessAll({Outcome(out, <<>>, 0)}, Written(vShell.body, vShell.n), NoObs, FALSE)}
FirstErrorStops ==
    \A o \in Process(vShell, Rec("loop end"), NoObs, FALSE) : o.err <= 1 /\ (o.st.dead <=> o.err = 1)

-----------------------------------------------------------------------------
(* Layout: a line may be split anywhere, indented and commented.            *)
RECURSIVE RunLines(_, _, _)
RunLines(pending, lines, acc) ==
    IF lines = <<>> THEN acc
    ELSE LET x == ReadLine(pending, Head(lines)) IN RunLines(x.pending, Tail(lines), acc \o x.run)
Runs(lines) == RunLines(<<>>, lines, <<>>)
Samples == {<<"a", " ", "1", ";", "b">>, <<"a">>, <<"a", ";", " ", "b", " ", "2">>, <<"a", " ", "b", "\\", "n", "c">>}
Noise == {<<>>, <<" ">>, <<"\t">>, <<" ", "#", "a">>, <<"#", "\\">>}
ASSUME Layout == \A t \in Samples :
    /\ \A x \in Noise : Runs(<<t \o x>>) = Runs(<<t>>) /\ Runs(<<x, t, x>>) = Runs(<<t>>)
    /\ \A i \in 1..(Len(t) - 1) : t[i] # " " /\ t[i + 1] # " " /\ t[i] # "\\" =>
        \A x \in {<<>>, <<" ">>, <<"\t">>} :
        Runs(<<SubSeq(t, 1, i) \o <<"\\">> \o x, x \o SubSeq(t, i + 1, Len(t))>>) = Runs(<<t>>)
ASSUME Splits == Runs(<<Strip(<<"a">>) \o <<";">> \o <<"b">>>>) = Runs(<<<<"a">>, <<"b">>>>)

-----------------------------------------------------------------------------
(* Random histories for the replay. *)
One(S) == {RandomElement(S)}
Kinds == <<"set", "set", "set", "set_candidates", "remove_candidates", "init_candidates", "get",
           "get_candidates", "encode", "print", "view", "stack", "push", "push", "pop", "pop", "new",
           "decode", "loop", "loop end", "loop end", "solve", "fail", "bad", "set", "help">>
\* numbers which fit on every board used
Vals == 0..2
DecodeTexts == {<<"1">>, <<"1", "2", "0", "0">>, <<"0", "0", "0", "1">>, <<"1", "1">>,
                <<"0", "2", "0", "0", "|", "1", "2", ",", ",", "2">>, <<"1", "0", "x", "0">>}
Drawn(k, r, q, v, u, yes, yes2, t, z, m) ==
    CASE k = "set" -> [op |-> k, r |-> r, c |-> q, v |-> v]
      [] k \in {"set_candidates", "remove_candidates"} -> [op |-> k, r |-> r, c |-> q, s |-> u]
      [] k \in {"get", "get_candidates"} -> [op |-> k, r |-> r, c |-> q]
      [] k = "init_candidates" -> [op |-> k, filled |-> yes]
      [] k = "encode" -> [op |-> k, rowsep |-> IF yes THEN <<>> ELSE <<"/">>,
                          colsep |-> IF yes THEN <<"-">> ELSE <<>>, cand |-> yes2]
      [] k = "view" -> [op |-> k, cand |-> yes, nosep |-> yes2, sep |-> <<"/">>,
                        prefix |-> <<"*">>, right |-> yes]
      [] k = "help" -> [op |-> k, names |-> <<<<"s", "e", "t">>>>]
      [] k = "pop" -> [op |-> k, last |-> yes, i |-> m]
      [] k = "new" -> [op |-> k, w |-> z[1], h |-> z[2]]
      [] k = "decode" -> [op |-> k, t |-> t, o |-> Opts]
      [] k = "loop" -> [op |-> k, n |-> m]
      [] OTHER -> Rec(k)
Small == vShell.cur.w * vShell.cur.h <= 2
Proper == \A p \in DOMAIN vShell.cur.num : vShell.cur.num[p] <= vShell.cur.w * vShell.cur.h
GenNext ==
    IF Len(vHist) = MAXOPS
    THEN /\ vCmd.op # "done"
         /\ PrintT("HIST|" \o ToJson(vHist))
         /\ vCmd' = Rec("done") /\ UNCHANGED <<vShell, vSaid, vErrs, vHist>>
    ELSE \E i \in One(1..Len(Kinds)), v \in One(Vals), u \in One({<<>>, <<1>>, <<2>>, <<1, 2>>}),
            yes \in One(BOOLEAN), yes2 \in One(BOOLEAN), t \in One(DecodeTexts),
            z \in One({<<1, 1>>, <<1, 2>>, <<2, 1>>, <<2, 2>>, <<3, 3>>}), m \in One(0..3),
            r \in One(0..(IF Small THEN 2 ELSE 4)), q \in One(0..(IF Small THEN 2 ELSE 4)) :
         LET k == IF \/ Kinds[i] = "solve" /\ (~Small \/ vShell.n > 0 \/ ~Proper)
                     \/ Kinds[i] = "help" /\ vShell.n > 0 THEN "stack" ELSE Kinds[i] IN
         Give(Drawn(k, r, q, v, u, yes, yes2, t, z, m))
=============================================================================
