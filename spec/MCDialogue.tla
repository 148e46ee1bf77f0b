------------------------------ MODULE MCDialogue ------------------------------
(***************************************************************************)
(* A dialogue on a small scale.  One and the same input is given to an       *)
(* interactive shell and to one that is not: as long as no command fails     *)
(* they are in the same state and say the same, but for the introduction     *)
(* and the prompts, which tell at every moment whether commands are being    *)
(* collected.                                                               *)
(***************************************************************************)
EXTENDS Dialogue
CONSTANTS TEXTS, MAXLINES
VARIABLES vLive, vScript, vHold, vTalk, vOut, vAsked
talkVars == <<vLive, vScript, vHold, vTalk, vOut, vAsked>>
MCSizes == {<<1, 2>>}
NoObs == [on |-> FALSE]
R(o) == [op |-> o]
Command(t) ==
    CASE t = <<"s">> -> [op |-> "set", r |-> 0, c |-> 1, v |-> 1]
      [] t = <<"g">> -> [op |-> "get", r |-> 0, c |-> 1]
      [] t = <<"k">> -> R("stack")
      [] t = <<"p">> -> R("push")
      [] t = <<"l">> -> [op |-> "loop", n |-> 2]
      [] t = <<"e">> -> R("loop end")
      [] t = <<"x">> -> R("exit")
      [] t = <<"f">> -> R("fail")
      [] OTHER -> R("bad")
Cmds(run) == [i \in DOMAIN run |-> Command(run[i])]
SomeTexts == {<<"s">>, <<"g", ";", "k">>, <<"l">>, <<"e">>, <<"p", ";", "e">>, <<"x">>, <<"f">>,
              <<"g", "\\">>, <<>>}
\* what is said, as items: numbers and prompts
Said(o) == o.out
Init == /\ vLive = ShellWith(NewBoard(1, 2)) /\ vScript = ShellWith(NewBoard(1, 2))
        /\ vHold = <<>> /\ vTalk = <<>> /\ vOut = <<>> /\ vAsked = 0
Step(t) ==
    LET x == ReadLine(vHold, t)
        run(st, live) == ProcessAll({Outcome(st, <<>>, 0)}, Cmds(x.run), NoObs, live)
    IN \E o \in run(vLive, TRUE), q \in run(vScript, FALSE) :
        /\ vLive' = o.st /\ vScript' = q.st /\ vHold' = x.pending
        /\ vTalk' = vTalk \o <<[k |-> "prompt", t |-> Prompt(vLive, TRUE)]>> \o Said(o)
        /\ vOut' = vOut \o Said(q)
        /\ vAsked' = vAsked + 1
Next == vLive.on /\ ~vLive.dead /\ vAsked < MAXLINES /\ \E t \in TEXTS : Step(t)
\* what was said may grow without bound, only its length is kept short
Quiet == SelectSeq(vTalk, LAMBDA i : i.k # "prompt")
Prompts == SelectSeq(vTalk, LAMBDA i : i.k = "prompt")
OnePromptALine == Len(Prompts) = vAsked
SameUnlessFailed == ~vScript.dead => vLive = vScript /\ Quiet = vOut
\* after a failure the script says no more, the dialogue goes on
ScriptIsPrefix == Len(vOut) <= Len(Quiet) /\ SubSeq(Quiet, 1, Len(vOut)) = vOut
PromptTells == /\ (vLive.n > 0) = (Prompt(vLive, TRUE) # T_prompt)
               /\ NumbersIn(Prompt(vLive, TRUE)) = (IF vLive.n > 0 THEN {vLive.n} ELSE {})
               /\ Prompt(vScript, FALSE) = <<>>
NeverDead == ~vLive.dead
=============================================================================
