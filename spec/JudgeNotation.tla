---------------------------- MODULE JudgeNotation ----------------------------
(* Verdicts on coordinate notation and moves (C20, C21, C22).               *)
EXTENDS Notation, Observed
VARIABLES vIdx, vDone
Shape(r) == <<r.w, r.h>>

\* C20: every way of writing one set of fields, and reading it back
BadWrite(r) ==
    LET s == Shape(r)
        S == Set(r.fields)
        want(x) == Write(s, S, x.mode, x.sep, x.nsep)
    IN UNION {LET x == r.calls[k] IN
        IF x.err # "ok" THEN {x.mode \o ": failed"}
        ELSE {x.mode \o ": " \o c : c \in Failing({
            <<"not the text of these fields", x.text = want(x)>>,
            <<"does not read back", x.back = "ok">>,
            <<"reads back as other fields", x.back # "ok" \/ x.got = Sorted(S)>>})} : k \in DOMAIN r.calls}
BadReject(r) == UNION {LET x == r.calls[k] IN Failing({
        <<x.mode \o ": not rejected with ValueError", x.err = "ValueError">>}) : k \in DOMAIN r.calls}

\* C21
BadRead(r) ==
    LET s == Shape(r)
        want == TLCEval(Read(s, r.text, r.sep, r.nsep))
    IN IF r.tree # <<>> /\ want # [ok |-> TRUE, fields |-> Meaning(s, r.tree)]
       THEN {"HARNESS: tree and text differ"}
       ELSE IF want.ok THEN Failing({
            <<"a correct expression was rejected", r.err = "ok">>,
            <<"other fields", r.err # "ok" \/ Set(r.got) = want.fields>>,
            <<"not sorted, or repeated", r.err # "ok" \/ r.got = Sorted(Set(r.got))>>})
       ELSE Failing({<<"malformed expression not rejected with ValueError", r.err = "ValueError">>})

\* C22.  What a move does is seen on a board.
MoveOk(m) == [ok |-> TRUE] @@ m
Logged(m) == IF m.kind = "set" THEN [kind |-> "set", fields |-> Set(m.fields), number |-> m.number]
             ELSE [kind |-> "remove", fields |-> Set(m.fields), cands |-> Set(m.cands)]
Does(b, m, chg) == Regular(chg) /\ Changed(b, chg) = Perform(b, m)
BadMove(r) ==
    LET s == Shape(r)
        b == TLCEval(Seen(r.b))
        m == Logged(r.move)
    IN UNION {LET x == r.texts[k] IN
        {x.how \o ": " \o c : c \in
         IF x.err # "ok" THEN {"failed"} ELSE Failing({
            <<"not the text of this move", x.how # "encode" \/ x.text = WriteMove(s, m)>>,
            <<"HARNESS: not a text of this move", x.how = "encode" \/ ReadMove(s, x.text) = MoveOk(m)>>,
            <<"does not read back", x.back = "ok">>,
            <<"reads back as another move", x.back # "ok" \/ Does(b, m, x.chg)>>})} : k \in DOMAIN r.texts}
       \cup Failing({<<"performing the move failed", r.err = "ok">>,
                     <<"performing the move does something else", Does(b, m, r.chg)>>})
BadMoveText(r) ==
    LET s == Shape(r)
        b == TLCEval(Seen(r.b))
        want == TLCEval(ReadMove(s, r.text))
    IN IF want.ok THEN Failing({
            <<"a correct move was rejected", r.err = "ok">>,
            <<"another move", r.err # "ok" \/ Does(b, want, r.chg)>>})
       ELSE Failing({<<"text that is no move not rejected with ValueError", r.err = "ValueError">>})

Bad(r) == CASE r.kind = "write" -> BadWrite(r)
            [] r.kind = "reject" -> BadReject(r)
            [] r.kind = "read" -> BadRead(r)
            [] r.kind = "move" -> BadMove(r)
            [] r.kind = "move text" -> BadMoveText(r)
Init == vIdx \in DOMAIN LogLines /\ vDone = FALSE
Next == /\ ~vDone
        /\ RejectAll(vIdx, Bad(LogLines[vIdx])) /\ Judged(vIdx)
        /\ vDone' = TRUE /\ UNCHANGED vIdx
=============================================================================
