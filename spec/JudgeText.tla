----------------------------- MODULE JudgeText -----------------------------
(* Verdicts on boards written as text, read from text and printed.          *)
EXTENDS Text, Observed
VARIABLES vIdx, vDone

\* C04
BadEncode(r) ==
    LET b == Seen(r.b)
        want == IF r.cand THEN b ELSE BlankCand(b)
    IN Failing({
        <<"encode failed", r.err = "ok">>,
        <<"encoded text", r.text = Encode(b, r.rowsep, r.colsep, r.cand)>>,
        <<"board changed by encode", Seen(r.after) = b>>,
        <<"decode of the encoded text failed", r.back = <<>> \/ r.derr = "ok">>,
        <<"board read back differs", r.back = <<>> \/ r.derr # "ok" \/ Seen(r.back[1]) = want>>})

\* C05
BadDecode(r) ==
    LET o == [empty |-> r.empty, nsep |-> r.nsep, ssep |-> r.ssep, csep |-> r.csep, box |-> r.box]
        d == Decode(r.text, o)
    IN IF d.ok
       THEN Failing({<<"valid text rejected", r.err = "ok">>,
                     <<"wrong board read", r.err # "ok" \/ (Whole(r.got) /\ Seen(r.got) = d.b)>>})
       ELSE Failing({<<"invalid text accepted", r.err # "ok">>,
                     <<"wrong error", r.err \in {"ok", "ValueError"}>>})

\* C06
BadView(r) ==
    LET b == Seen(r.b)
        v == [cand |-> r.cand, right |-> r.right, prefix |-> r.prefix,
              sep |-> IF r.sep = <<>> THEN DefaultSep(b) ELSE r.sep[1]]
        fw == IF r.lines = <<>> THEN 0 ELSE FieldWidth(b, Len(r.lines[1]))
        want == ViewLines(b, v, fw)
    IN IF r.err # "ok" THEN {"view failed"}
       ELSE Failing({
        <<"field width", fw > 0 /\ fw >= LongestEntry(b, v)>>,
        <<"number of lines", Len(r.lines) = Len(want)>>,
        <<"lines", fw = 0 \/ Len(r.lines) # Len(want) \/ r.lines = want>>,
        <<"board changed by view", Seen(r.after) = b>>})

Bad(r) == CASE r.kind = "encode" -> BadEncode(r)
            [] r.kind = "decode" -> BadDecode(r)
            [] r.kind = "view" -> BadView(r)
Init == vIdx \in DOMAIN LogLines /\ vDone = FALSE
Next == /\ ~vDone
        /\ RejectAll(vIdx, Bad(LogLines[vIdx]))
        /\ Judged(vIdx)
        /\ vDone' = TRUE /\ UNCHANGED vIdx
=============================================================================
