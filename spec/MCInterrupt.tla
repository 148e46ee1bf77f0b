----------------------------- MODULE MCInterrupt -----------------------------
(***************************************************************************)
(* Interrupts on a small scale: lines are typed one after another, any of    *)
(* them may be interrupted, at the prompt or while it runs.  An interrupted  *)
(* line leaves what a part of it leaves, nothing of it runs later, and the   *)
(* shell is afterwards as good as a new one with that board and stack.       *)
(***************************************************************************)
EXTENDS Interrupt
CONSTANTS TEXTS, MAXSTACK, MAXBODY
VARIABLES vShell, vPending, vEvent, vOld
interruptVars == <<vShell, vPending, vEvent, vOld>>
MCSizes == {<<1, 2>>}
NoObs == [on |-> FALSE]
R(o) == [op |-> o]
\* one letter for each command
Command(t) ==
    CASE t = <<"s">> -> [op |-> "set", r |-> 0, c |-> 1, v |-> 1]
      [] t = <<"z">> -> [op |-> "set", r |-> 0, c |-> 1, v |-> 0]
      [] t = <<"p">> -> R("push")
      [] t = <<"q">> -> [op |-> "pop", last |-> TRUE, i |-> 0]
      [] t = <<"o">> -> R("print")
      [] t = <<"l">> -> [op |-> "loop", n |-> 2]
      [] t = <<"e">> -> R("loop end")
      [] t = <<"f">> -> R("fail")
      [] t = <<"x">> -> R("exit")
      [] t = <<"r">> -> [op |-> "remove_candidates", r |-> 0, c |-> 0, s |-> <<1, 2>>]
      [] OTHER -> R("bad")
Cmds(run) == [i \in DOMAIN run |-> Command(run[i])]
FewTexts == {<<"s", "\\">>, <<"z", ";", "p">>, <<"l">>, <<"l", ";", "p">>, <<"p", ";", "e", ";", "s">>,
             <<"q", ";", "o">>, <<"o", ";", "f", ";", "p">>, <<>>}
MoreTexts == FewTexts \cup {<<";", "p", "\\">>, <<"s", ";", "x">>, <<"e", ";", "q">>, <<"l", ";", "s", ";", "q", ";", "e">>}

Init == vShell = ShellWith(NewBoard(1, 2)) /\ vPending = <<>> /\ vEvent = "none" /\ vOld = ShellStart
Typed(t) ==
    LET x == ReadLine(vPending, t) IN
    /\ \E o \in ProcessAll({Outcome(vShell, <<>>, 0)}, Cmds(x.run), NoObs, TRUE) : vShell' = o.st
    /\ vPending' = x.pending /\ vEvent' = "typed" /\ vOld' = vShell
BrokenOff(t) ==
    LET x == ReadLine(vPending, t) IN
    /\ \E o \in Interrupted({Outcome(vShell, <<>>, 0)}, Cmds(x.run), NoObs, TRUE) : vShell' = o.st
    /\ vPending' = <<>> /\ vEvent' = "broken off" /\ vOld' = vShell
AtPrompt == vShell' = Waiting(vShell, TRUE) /\ vPending' = <<>> /\ vEvent' = "prompt" /\ vOld' = vShell
Next == vShell.on /\ (AtPrompt \/ \E t \in TEXTS : Typed(t) \/ BrokenOff(t))
Bound == Len(vShell.stack) <= MAXSTACK /\ Len(vShell.body) <= MAXBODY /\ Len(vPending) <= 2
View == <<vShell, vPending, vEvent>>

NothingLeft == vEvent \in {"prompt", "broken off"} => vPending = <<>>
LoopGone == vEvent = "broken off" => vShell.n = 0 /\ vShell.body = <<>> /\ ~vShell.dead /\ vShell.on
PromptKeeps == [][vEvent' = "prompt" => vShell' = vShell]_interruptVars
\* what a part of the line leaves, with loops written out
RECURSIVE Steps(_, _)
Steps(st, cmds) ==      \* the boards and stacks passed through
    IF cmds = <<>> \/ ~st.on THEN {<<st.cur, st.stack>>}
    ELSE LET c == Head(cmds) IN
         IF c.op = "loop end" /\ st.n > 0
         THEN Steps([st EXCEPT !.n = 0, !.body = <<>>], Unroll(st.body, st.n) \o Tail(cmds))
         ELSE {<<st.cur, st.stack>>} \cup Steps((CHOOSE o \in Process(st, c, NoObs, TRUE) : TRUE).st, Tail(cmds))
PartOf == [][vEvent' = "broken off" =>
    \E t \in TEXTS : <<vShell'.cur, vShell'.stack>> \in Steps(vShell, Cmds(ReadLine(vPending, t).run))]_interruptVars
\* every line which runs a command at all may be interrupted, and only such a line
CanBreak == \A t \in TEXTS : vShell.on =>
    LET x == ReadLine(vPending, t)
        outs == Interrupted({Outcome(vShell, <<>>, 0)}, Cmds(x.run), NoObs, TRUE)
    IN x.run = <<>> => outs = {}
=============================================================================
