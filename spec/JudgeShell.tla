------------------------------ MODULE JudgeShell ------------------------------
(***************************************************************************)
(* Verdicts on observed runs of the command shell (C23, C24, C25, C28).     *)
(*                                                                         *)
(* A record has a table of command texts and what they mean.                *)
(* "lines": the shell was fed line by line; after each line its output, the *)
(*   number of errors, board and stack were taken (only if changed) and     *)
(*   whether it went on reading.  hit tells whether the user interrupted    *)
(*   the shell: while it waited for this line or while it ran it.           *)
(* "whole": a process ran a script; its output, errors and exit status.     *)
(***************************************************************************)
EXTENDS Interrupt, Observed
VARIABLES vIdx, vK, vState, vPending
judgeVars == <<vIdx, vK, vState, vPending>>
Rec == LogLines[vIdx]

Known(r, t) == \E i \in DOMAIN r.table : r.table[i].t = t
Meaning(r, t) == r.table[CHOOSE i \in DOMAIN r.table : r.table[i].t = t].c
Meanings(r, texts) == [i \in DOMAIN texts |-> Meaning(r, texts[i])]

\* -- line by line
Line == Rec.lines[vK]
Read == ReadLine(vPending, Line.line)
SeenBoard(l) == IF l.b = <<>> THEN vState.cur ELSE Seen(l.b[1])
SeenStack(l) == IF l.same THEN vState.stack ELSE [i \in DOMAIN l.stack |-> Seen(l.stack[i])]
WellSeen(l) == /\ \A i \in DOMAIN l.b : Whole(l.b[i])
               /\ \A i \in DOMAIN l.stack : Whole(l.stack[i])
Obs(l) == [on |-> TRUE, b |-> SeenBoard(l), known |-> l.known]
Going(st, l) == IF st.dead THEN IF l.hit = "" THEN "status 1" ELSE "status 2"
                ELSE IF ~st.on THEN "left" ELSE ""
\* the way to leave the shell is shown, nothing else is said about the text
Told(l) == IF Rec.live THEN Occurs(<<"e", "x", "i", "t">>, l.out) ELSE l.out = <<>>
Mismatch(o, l) == Failing({
    <<"errors: expected " \o ToString(o.err) \o ", reported " \o ToString(l.err), o.err = l.err>>,
    <<"output", IF l.hit = "prompt" THEN Told(l) ELSE Shows(o.out, l.out)>>,
    <<"board", o.st.cur = SeenBoard(l)>>,
    <<"stack", o.st.stack = SeenStack(l)>>,
    <<"expected '" \o Going(o.st, l) \o "', but the shell: '" \o l.gone \o "'", Going(o.st, l) = l.gone>>})
\* nothing is wrong with an outcome that agrees with the line
Agrees(o, l) == Mismatch(o, l) = {}
Where(l) == " after line " \o ToString(vK)
Outcomes(l, run) ==
    LET here == {Outcome(vState, <<>>, 0)} IN
    CASE l.hit = "" -> ProcessAll(here, Meanings(Rec, run), Obs(l), Rec.live)
      [] l.hit = "prompt" -> {Outcome(Waiting(vState, Rec.live), <<>>, 0)}
      [] OTHER -> Stopped(Interrupted(here, Meanings(Rec, run), Obs(l), Rec.live), Rec.live)
BadLine(l, run, outs) ==
    IF \E i \in DOMAIN run : ~Known(Rec, run[i]) THEN {"HARNESS: unknown text"}
    ELSE IF ~WellSeen(l) THEN {"no proper board" \o Where(l)}
    ELSE IF outs = {} THEN {"result which is not allowed" \o Where(l)}
    ELSE IF \E o \in outs : Agrees(o, l) THEN {}
    ELSE {m \o Where(l) : m \in Mismatch(CHOOSE o \in outs : TRUE, l)}
Step ==
    /\ Rec.kind = "lines" /\ vK <= Len(Rec.lines)
    /\ LET l == Line
           x == TLCEval(IF l.hit = "prompt" THEN [pending |-> <<>>, run |-> <<>>] ELSE Read)
           fine == (\A i \in DOMAIN x.run : Known(Rec, x.run[i])) /\ WellSeen(l)
           outs == TLCEval(IF fine THEN Outcomes(l, x.run) ELSE {})
           bad == TLCEval(BadLine(l, x.run, outs))
           last == vK = Len(Rec.lines)
       IN /\ RejectAll(vIdx, bad)
          /\ vK' = IF bad # {} THEN Len(Rec.lines) + 1 ELSE vK + 1
          /\ vPending' = x.pending
          /\ vState' = IF bad # {} THEN vState ELSE (CHOOSE o \in outs : Agrees(o, l)).st
          /\ (bad = {} /\ last) =>
                RejectAll(vIdx, Failing({
                    <<"the shell did not end with its input", l.gone # "" \/ Rec.ended = "left">>}))
          /\ (bad = {} /\ last) => Judged(vIdx)
    /\ UNCHANGED vIdx

\* -- a whole script
RECURSIVE RunLines(_, _, _)
RunLines(outs, pending, lines) ==
    IF lines = <<>> THEN outs
    ELSE LET x == TLCEval(ReadLine(pending, Head(lines))) IN
         RunLines(TLCEval(ProcessAll(outs, Meanings(Rec, x.run), [on |-> FALSE], FALSE)),
                  x.pending, Tail(lines))
\* the command line option: one text, nothing but commands
Argument(t) == LET q == Pieces(t, {";"}) IN [i \in DOMAIN q |-> Strip(q[i])]
Final(r) ==
    LET start == {Outcome(ShellStart, <<>>, 0)} IN
    IF r.channel = "-c" THEN ProcessAll(start, Meanings(r, Argument(r.text)), [on |-> FALSE], FALSE)
    ELSE RunLines(start, <<>>, r.input)
Status(st) == IF st.dead THEN 1 ELSE 0
WrongRun(o, r) == Failing({
    <<"errors: expected " \o ToString(o.err) \o ", reported " \o ToString(r.err), o.err = r.err>>,
    <<"output", Shows(o.out, r.out)>>,
    <<"exit status: expected " \o ToString(Status(o.st)) \o ", got " \o ToString(r.status),
      Status(o.st) = r.status>>})
BadRun(r) ==
    IF r.channel = "missing"
    THEN Failing({<<"a missing file ends with status 1", r.status = 1>>,
                  <<"a missing file is reported", r.told>>,
                  <<"output without a script", r.out = <<>>>>})
    ELSE LET outs == TLCEval(Final(r)) IN
    IF \E o \in outs : WrongRun(o, r) = {} THEN {} ELSE WrongRun(CHOOSE o \in outs : TRUE, r)
Run ==
    /\ Rec.kind = "whole" /\ vK = 1
    /\ RejectAll(vIdx, BadRun(Rec))
    /\ Judged(vIdx)
    /\ vK' = 2
    /\ UNCHANGED <<vIdx, vState, vPending>>

Init == /\ vIdx \in DOMAIN LogLines
        /\ vK = 1 /\ vState = ShellStart /\ vPending = <<>>
Next == Step \/ Run
=============================================================================
