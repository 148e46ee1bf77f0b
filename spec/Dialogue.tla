------------------------------- MODULE Dialogue -------------------------------
(***************************************************************************)
(* What an interactive shell says beside the results of the commands: an    *)
(* introduction, and a prompt before every line it reads.  A shell that is   *)
(* not interactive says neither.                                            *)
(* A transcript is all the text written to the output.                      *)
(***************************************************************************)
EXTENDS Interrupt

T_prompt == <<">", " ">>
T_loop == <<"l", "o", "o", "p", " ">>
\* while a loop is being defined the prompt tells its number of repetitions
Prompt(st, live) ==
    IF ~live THEN <<>>
    ELSE IF st.n > 0 THEN T_loop \o NumText(st.n) \o T_prompt ELSE T_prompt
\* the introduction: the name of the program, its version, how to get help
T_name == <<"s", "u", "d", "o", "k", "u", "t", "o", "o", "l", "s">>
T_help == <<"h", "e", "l", "p">>
IsIntro(ls, version, live) ==
    IF ~live THEN ls = <<>>
    ELSE /\ ls # <<>>
         /\ \A x \in {T_name, version, T_help} : Occurs(x, AllText(ls))
\* the end of the input ends the line of the last prompt
IsFarewell(t, live) == t = <<>> \/ (live /\ t = <<"\n">>)

-----------------------------------------------------------------------------
(* Reading a transcript.  A prompt ends no line, so the first result of a    *)
(* line stands behind the prompt.                                           *)
RECURSIVE HeightOf(_)
HeightOf(items) == IF items = <<>> THEN 0 ELSE Height(Head(items), 0) + HeightOf(Tail(items))
\* the place where line k ends
EndOfLine(t, k) ==
    IF k = 0 THEN 0
    ELSE LET e == {i \in DOMAIN t : t[i] = "\n"} IN
         IF Cardinality(e) < k THEN -1
         ELSE CHOOSE i \in e : Cardinality({j \in e : j <= i}) = k
From(t, i) == SubSeq(t, i, Len(t))
Begins(t, x) == Len(t) >= Len(x) /\ SubSeq(t, 1, Len(x)) = x
=============================================================================
