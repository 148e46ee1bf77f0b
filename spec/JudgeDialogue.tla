----------------------------- MODULE JudgeDialogue -----------------------------
(***************************************************************************)
(* Verdicts on dialogues (C31): introduction and prompts of sessions fed    *)
(* line by line (judged as by JudgeShell besides), and whole sessions at a   *)
(* terminal, whose transcript is read from its beginning to its end.        *)
(***************************************************************************)
EXTENDS JudgeShell, Dialogue

Mark == " after line " \o ToString(vK)
Talk ==
    /\ Step
    /\ LET l == Line IN
       RejectAll(vIdx, Failing({
         <<"introduction", vK > 1 \/ IsIntro(Lines(Rec.opening), Rec.version, Rec.live)>>,
         <<"first prompt", vK > 1 \/ Rec.asked = Prompt(ShellStart, Rec.live)>>,
         <<"prompt" \o Mark, l.prompt = IF l.gone # "" THEN <<>> ELSE Prompt(vState', Rec.live)>>,
         <<"something said at the end", vK < Len(Rec.lines) \/ IsFarewell(Rec.closing, Rec.live)>>}))

\* the transcript read so far fits; what remains, and all the errors reported
RECURSIVE Follow(_, _, _, _, _, _)
Follow(st, pending, lines, text, errs, k) ==
    LET p == Prompt(st, TRUE)
        here == " at line " \o ToString(k)
    IN IF ~st.on THEN [bad |-> IF text = <<>> THEN {} ELSE {"something said after the end"}, err |-> errs]
       ELSE IF ~Begins(text, p) THEN [bad |-> {"prompt" \o here}, err |-> errs]
       ELSE LET rest == From(text, Len(p) + 1) IN
       IF lines = <<>>
       THEN [bad |-> IF IsFarewell(rest, TRUE) THEN {} ELSE {"something said at the end"}, err |-> errs]
       ELSE LET x == TLCEval(ReadLine(pending, Head(lines)))
                outs == TLCEval(ProcessAll({Outcome(st, <<>>, 0)}, Meanings(Rec, x.run), [on |-> FALSE], TRUE))
                o == CHOOSE y \in outs : TRUE
                e == EndOfLine(rest, HeightOf(o.out))
            IN IF Cardinality(outs) # 1 THEN [bad |-> {"HARNESS: several outcomes"}, err |-> 0]
               ELSE IF e < 0 THEN [bad |-> {"too little said" \o here}, err |-> errs]
               ELSE IF ~Shows(o.out, SubSeq(rest, 1, e)) THEN [bad |-> {"output" \o here}, err |-> errs]
               ELSE Follow(o.st, x.pending, Tail(lines), TLCEval(From(rest, e + 1)), errs + o.err, k + 1)
BadTerminal(r) ==
    LET e == EndOfLine(r.out, r.intro) IN
    IF e < 0 THEN {"introduction"}
    ELSE LET f == TLCEval(Follow(ShellStart, <<>>, r.input, From(r.out, e + 1), 0, 1)) IN
         f.bad \cup Failing({
            <<"introduction", IsIntro(Lines(SubSeq(r.out, 1, e)), r.version, TRUE)>>,
            <<"errors: expected " \o ToString(f.err) \o ", reported " \o ToString(r.err),
              f.bad # {} \/ f.err = r.err>>,
            <<"exit status " \o ToString(r.status), r.status = 0>>})
Terminal ==
    /\ Rec.kind = "terminal" /\ vK = 1
    /\ RejectAll(vIdx, BadTerminal(Rec))
    /\ Judged(vIdx)
    /\ vK' = 2
    /\ UNCHANGED <<vIdx, vState, vPending>>
TalkNext == Talk \/ Terminal
=============================================================================
