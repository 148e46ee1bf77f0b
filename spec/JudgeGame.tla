------------------------------ MODULE JudgeGame ------------------------------
(***************************************************************************)
(* Verdicts on recorded games (C26, C27).  After every input the printed    *)
(* board and the messages are compared with those of the specification.     *)
(* The start board is explored for a second solution (mode "explore").      *)
(***************************************************************************)
EXTENDS Search, Game, Observed
VARIABLES vIdx, vMode, vK, vGame, vHints
playVars == <<vGame, vHints>>
Rec == LogLines[vIdx]
S33 == <<3, 3>>
Plain(b) == [cand |-> TRUE, sep |-> <<>>, prefix |-> <<"*">>, right |-> TRUE]

-----------------------------------------------------------------------------
(* The printed board: fields of any width that is enough. *)
ShowsBoard(b, lines) ==
    /\ Len(lines) = 11
    /\ LET fw == FieldWidth(b, Len(lines[1])) IN
       /\ fw >= LongestEntry(b, Plain(b))
       /\ lines = ViewLines(b, Plain(b), fw)

(* The start. *)
Occurs(x, t) == \E i \in 0..(Len(t) - Len(x)) : SubSeq(t, i + 1, i + Len(x)) = x
T_of10 == <<"/", "1", "0">>
\* pure: the board shown is the one that was rated
Introduced(r, pure) ==
    /\ \A i \in DOMAIN r.intro : \E k \in DOMAIN r.begin : Occurs(r.intro[i], r.begin[k])
    /\ pure => \E k \in DOMAIN r.begin : Occurs(<<" ">> \o NumText(r.rate) \o T_of10, r.begin[k])
StartOk(r) == Whole(r.start) /\ <<r.start.w, r.start.h>> = S33
              /\ \A p \in DOMAIN r.start.num : r.start.num[p] \in 0..9
StartBoard(r) ==
    [Seen(r.start) EXCEPT !.cand = [p \in DOMAIN @ |->
        IF r.start.num[p] # 0 THEN {r.start.num[p]} ELSE @[p]]]
BadStart(r) ==
    IF ~StartOk(r) THEN {"start: no board"}
    ELSE IF r.known = <<>> THEN {"start: no solution"}
    ELSE IF ~IsSolutionOf(S33, r.known[1], r.start.num) THEN {"HARNESS: wrong witness"}
    ELSE LET b == StartBoard(r)
             e == Empty(S33, b.num)
         IN {"start: " \o c : c \in Failing({
            <<"introduction or rating", Rec.focus = "history" \/ Introduced(r, ~(r.cands /\ r.rules.fill))>>,
            <<"conflict", ConflictFree(S33, b.num)>>,
            <<"board printed wrongly", ShowsBoard(b, r.view)>>,
            <<"candidates", CASE ~r.cands -> \A p \in e : b.cand[p] = {}
                              [] ~r.rules.fill \/ r.rules.remove -> \A p \in e : b.cand[p] = Calc(S33, b.num, p)
                              [] OTHER -> \A p \in e : Calc(S33, b.num, p) \subseteq b.cand[p]>>,
            <<"automatics not done", r.cands => Autofill(b, r.rules) = b>>})}

-----------------------------------------------------------------------------
(* One input. *)
T_hint == <<"h","i","n","t">>
T_candidates == <<"c","a","n","d","i","d","a","t","e","s">>
T_conflicts == <<"c","o","n","f","l","i","c","t","s">>
T_settings == <<"s","e","t","t","i","n","g","s">>
T_check == <<"c","h","e","c","k">>
T_undo == <<"u","n","d","o">>
T_redo == <<"r","e","d","o">>
T_equals == <<" ", "=", " ">>
T_autoremove == <<"a","u","t","o","r","e","m","o","v","e",":">>
T_autoset == <<"a","u","t","o","s","e","t",":">>
Words(t) == NonEmpty(Pieces(t, Blank))
Input(t) ==
    LET w == Words(t) IN
    IF w = <<>> THEN [k |-> "nothing"]
    ELSE CASE w[1] = T_hint -> [k |-> "hint"]
           [] w[1] = T_candidates -> [k |-> "candidates"]
           [] w[1] = T_conflicts -> [k |-> "conflicts"]
           [] w[1] = T_settings -> [k |-> "settings"]
           [] w[1] = T_check -> [k |-> "check"]
           [] w[1] = T_undo -> [k |-> "undo"]
           [] w[1] = T_redo -> [k |-> "redo"]
           [] OTHER -> LET m == TLCEval(ReadMove(S33, t)) IN
                       IF m.ok THEN [k |-> "move", m |-> m] ELSE [k |-> "unknown"]
FieldName(p) == Write(S33, {p}, "auto", <<",">>, <<>>)
CheckLine(p, v) == <<"[", "F", "]", " ">> \o FieldName(p) \o <<" ", "=", " ">> \o NumText(v)
ConflictLine(p, q, v) ==
    <<"[", "F", "]">> \o FieldName(p) \o <<" ", "=", " ">> \o FieldName(q) \o <<" ", "=", " ">> \o NumText(v)
Lists(out, lines) == Len(out) = Cardinality(lines) /\ Set(out) = lines
\* a conflict may be named in either direction, but only once
BadConflicts(b, out) ==
    LET pairs == ConflictPairs(b)
        both(x) == {ConflictLine(p, q, b.num[p]) : p \in x, q \in x}
    IN Failing({
        <<"conflicts: a pair is missing, wrong or repeated",
          Len(out) = Cardinality(pairs) /\ \A x \in pairs :
            Cardinality({i \in DOMAIN out : \E p \in x, q \in x : p # q /\ out[i] = ConflictLine(p, q, b.num[p])}) = 1>>})
StartsWith(t, x) == Len(t) >= Len(x) /\ SubSeq(t, 1, Len(x)) = x
\* what a message of the automatics says
Told(line, head) == ReadMove(S33, SubSeq(line, Len(head) + 1, Len(line)))
Pairs(m) == IF m.kind = "set" THEN m.fields \X {m.number} ELSE m.fields \X m.cands
BadAuto(b, m, rules, out) ==
    LET rem == {i \in DOMAIN out : StartsWith(out[i], T_autoremove)}
        fill == {i \in DOMAIN out : StartsWith(out[i], T_autoset)}
        r == TLCEval([i \in rem |-> Told(out[i], T_autoremove)])
        f == TLCEval([i \in fill |-> Told(out[i], T_autoset)])
    IN IF rem \cup fill # DOMAIN out THEN {"move: unexpected message"}
       ELSE IF (\E i \in rem : ~r[i].ok \/ r[i].kind # "remove") \/ (\E i \in fill : ~f[i].ok \/ f[i].kind # "set")
       THEN {"move: unreadable message"}
       ELSE Failing({
            <<"move: candidates told to be removed", UNION {Pairs(r[i]) : i \in rem} = Swept2(b, m, rules)>>,
            <<"move: numbers told to be set", UNION {Pairs(f[i]) : i \in fill} = Filled2(b, m, rules)>>})

\* hints: the board they belong to and what was given
Fresh(g, hs) == hs.on /\ hs.b = Current(g)
Given(g, hs) == IF Fresh(g, hs) THEN hs.given ELSE {}
Hint(l) == [t |-> l.hint[1].t, clues |-> Set(l.hint[1].clues), val |-> Set(l.hint[1].val)]
BadHint(g, hs, l) ==
    LET b == Current(g)
        given == Given(g, hs)
    IN IF l.hint = <<>>
       THEN IF l.out = <<>> THEN {"hint: nothing told"}
            ELSE LET all == TLCEval(UNION {HintsOf(t, b) : t \in Logical}) IN
                 Failing({<<"hint: no more hints, although there are some",
                            {HintKey(x) : x \in all} = {HintKey(x) : x \in given}>>})
       ELSE IF l.hint[1].t \notin Logical THEN {"hint: of no technique"}
       ELSE Failing({<<"hint: not valid for the board", Hint(l) \in HintsOf(l.hint[1].t, b)>>,
                     <<"hint: repeated", Hint(l) \notin given>>})
NextHints(g, hs, c, l) ==
    IF c.k # "hint" THEN hs
    ELSE [on |-> TRUE, b |-> Current(g), given |-> Given(g, hs) \cup (IF l.hint = <<>> THEN {} ELSE {Hint(l)})]

BadOutput(g, hs, c, l) ==
    LET b == Current(g) IN
    CASE c.k = "nothing" -> Failing({<<"empty line: output", l.out = <<>>>>})
      [] c.k = "candidates" -> Failing({<<"candidates: output", l.out = <<>>>>})
      [] c.k = "undo" -> Failing({<<"undo: message", (l.out = <<>>) = (g.at > 1)>>})
      [] c.k = "redo" -> Failing({<<"redo: message", (l.out = <<>>) = (g.at < Len(g.hist))>>})
      [] c.k = "settings" -> Failing({<<"settings: not exactly the settings with their values",
            /\ Len(l.out) = Len(l.set)
            /\ \A i \in DOMAIN l.set : \E k \in DOMAIN l.out :
                StartsWith(l.out[k], l.set[i][1] \o T_equals \o l.set[i][2])>>})
      [] c.k = "unknown" -> Failing({<<"unknown input not reported", \E i \in DOMAIN l.out : Occurs(Trim(l.line), l.out[i])>>})
      [] c.k = "check" -> Failing({<<"check: not exactly the wrong fields", Lists(l.out, {CheckLine(p, b.num[p]) : p \in Wrong(g)})>>})
      [] c.k = "conflicts" -> BadConflicts(b, l.out)
      [] c.k = "hint" -> BadHint(g, hs, l)
      [] c.k = "move" -> BadAuto(b, c.m, g.rules, l.out)
BadInput(g0, hs, l) ==
    LET g == [g0 EXCEPT !.rules = l.rules]
        c == TLCEval(Input(l.line))
        after == TLCEval(Play(g, c))
        \* C26 is about the boards and the ends of the history
        told == IF Rec.focus = "history" /\ c.k \notin {"undo", "redo", "unknown"} THEN {}
                ELSE BadOutput(g, hs, c, l)
    IN IF l.gone # "" THEN {c.k \o ": the game ended: " \o l.gone}
       ELSE told \cup Failing({<<c.k \o ": board", ShowsBoard(Current(after), l.view)>>})
InputNo(k) == " (input " \o ToString(k) \o ")"

-----------------------------------------------------------------------------
Init ==
    /\ vIdx \in DOMAIN LogLines
    /\ vK = 0 /\ vGame = <<>> /\ vHints = [on |-> FALSE]
    /\ \/ vMode = "play" /\ SearchInit(S33, <<>>)
       \/ vMode = "explore" /\ StartOk(Rec) /\ Rec.known # <<>> /\ SearchInit(S33, Rec.start.num)
Open ==
    /\ vMode = "play" /\ vK = 0
    /\ LET bad == TLCEval(BadStart(Rec)) IN
       /\ RejectAll(vIdx, bad)
       /\ vK' = IF bad = {} THEN 1 ELSE -1
       /\ vGame' = IF bad = {} THEN [hist |-> <<StartBoard(Rec)>>, at |-> 1, rules |-> Rec.rules,
                                     sol |-> Rec.known[1]] ELSE <<>>
    /\ UNCHANGED <<vIdx, vMode, vHints, vSize, vGiven, vGrid>>
Enter ==
    /\ vMode = "play" /\ vK > 0 /\ vK <= Len(Rec.lines)
    /\ LET l == Rec.lines[vK]
           g == [vGame EXCEPT !.rules = l.rules]
           c == TLCEval(Input(l.line))
           bad == TLCEval(BadInput(vGame, vHints, l))
       IN /\ RejectAll(vIdx, {x \o InputNo(vK) : x \in bad})
          /\ vGame' = TLCEval(Play(g, c))
          /\ vHints' = TLCEval(NextHints(g, vHints, c, l))
          /\ vK' = IF bad = {} THEN vK + 1 ELSE -1
    /\ UNCHANGED <<vIdx, vMode, vSize, vGiven, vGrid>>
Close ==
    /\ vMode = "play" /\ vK = Len(Rec.lines) + 1
    /\ Judged(vIdx) /\ vK' = -1
    /\ UNCHANGED <<vIdx, vMode, vGame, vHints, vSize, vGiven, vGrid>>
Explore == vMode = "explore" /\ vK = 0 /\ Place /\ UNCHANGED <<vIdx, vMode, vK, vGame, vHints>>
Arrive ==
    /\ vMode = "explore" /\ vK = 0 /\ Found
    /\ RejectAll(vIdx, Failing({<<"start: more than one solution", vGrid = Rec.known[1]>>}))
    /\ vK' = -1 /\ UNCHANGED <<vIdx, vMode, vGame, vHints, vSize, vGiven, vGrid>>
Next == Open \/ Enter \/ Close \/ Explore \/ Arrive
=============================================================================
