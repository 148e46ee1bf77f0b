-------------------------------- MODULE Shell --------------------------------
(***************************************************************************)
(* The command shell.  A shell state is a record                           *)
(*   [cur, stack, n, body, on, dead]                                       *)
(* cur: the current board, stack: saved boards, n: repetitions of the loop  *)
(* being defined (0: none), body: its commands, on: not left by exit, dead: *)
(* stopped by an error (only a shell which is not interactive).             *)
(*                                                                         *)
(* A command is a record with a field op.  Running one gives a set of       *)
(* outcomes [st, out, err]: the next state, what is printed and the number  *)
(* of errors reported.  Where the result of a command is not determined     *)
(* (solve, generate) the board observed after it is taken if it is right.   *)
(***************************************************************************)
EXTENDS Generate, Text

ShellWith(b) == [cur |-> b, stack |-> <<>>, n |-> 0, body |-> <<>>,
                 on |-> TRUE, dead |-> FALSE]
ShellStart == ShellWith(NewBoard(3, 3))
Outcome(st, out, err) == [st |-> st, out |-> out, err |-> err]
Good(st) == {Outcome(st, <<>>, 0)}
Prints(st, item) == {Outcome(st, <<item>>, 0)}
\* a failing command changes nothing
Bad(st, live) == {Outcome([st EXCEPT !.dead = ~live], <<>>, 1)}
Now(st, b) == Good([st EXCEPT !.cur = b])

\* things printed
TextItem(t) == [k |-> "text", t |-> t]
NumItem(v) == [k |-> "num", v |-> v]
SetItem(c) == [k |-> "cands", c |-> c]
StackItem(v) == [k |-> "stack", v |-> v]
HelpItem(names) == [k |-> "help", names |-> names]
ViewItem(b, v) == [k |-> "view", b |-> b, v |-> v]
PlainView(b) == [cand |-> FALSE, sep |-> DefaultSep(b), prefix |-> <<"*">>, right |-> TRUE]

FieldOf(b, c) == LET n == b.w * b.h IN c.r \in 0..(n - 1) /\ c.c \in 0..(n - 1)
Spot(b, c) == At(b.w, b.h, c.r, c.c)
CountFilled(b) == Cardinality({p \in DOMAIN b.num : b.num[p] # 0})
\* obs: [on |-> is there an observed board, b, known: boards which may be solutions]
Solve(st, obs, live) ==
    LET s == Size(st.cur) IN
    IF obs.on
    THEN IF obs.b.w = st.cur.w /\ obs.b.h = st.cur.h /\ IsSolutionOf(s, obs.b.num, st.cur.num)
         THEN Now(st, obs.b)
         ELSE IF \E i \in DOMAIN obs.known : IsSolutionOf(s, obs.known[i], st.cur.num) THEN {}
         ELSE IF ~Solvable(s, st.cur.num) THEN Bad(st, live) ELSE {}
    ELSE LET all == Solutions(s, st.cur.num) IN
         IF all = {} THEN Bad(st, live)
         ELSE {Outcome([st EXCEPT !.cur = [BlankCand(st.cur) EXCEPT !.num = g]], <<>>, 0) : g \in all}
Generated(st, c, obs) ==
    IF /\ obs.on /\ obs.b.w = c.w /\ obs.b.h = c.h
       /\ CountFilled(obs.b) >= c.least
       /\ Symmetric(<<c.w, c.h>>, c.sym, obs.b.num)
       /\ ConflictFree(<<c.w, c.h>>, obs.b.num)
    THEN Now(st, obs.b) ELSE {}
\* may give up, unless every grid fits
FromTemplate(st, c, obs, live) ==
    (IF /\ obs.on /\ Size(obs.b) = Size(st.cur) /\ c.tries # 0
        /\ \A p \in DOMAIN obs.b.num : (obs.b.num[p] = 0) = (st.cur.num[p] = 0)
        /\ ConflictFree(Size(st.cur), obs.b.num)
     THEN Now(st, obs.b) ELSE {})
    \cup
    (IF c.tries # 0 /\ Cardinality({p \in DOMAIN st.cur.num : st.cur.num[p] = 0}) < 4
     THEN {} ELSE Bad(st, live))

LoopOps == {"loop", "loop end", "loop fail"}
Exec(st, c, obs, live) ==
    LET b == st.cur IN
    CASE c.op = "new" -> Now(st, NewBoard(c.w, c.h))
      [] c.op = "decode" -> LET r == Decode(c.t, c.o) IN IF r.ok THEN Now(st, r.b) ELSE Bad(st, live)
      [] c.op = "generate" -> Generated(st, c, obs)
      [] c.op = "template" -> FromTemplate(st, c, obs, live)
      [] c.op = "solve" -> Solve(st, obs, live)
      [] c.op = "set" -> IF FieldOf(b, c) THEN Now(st, SetNum(b, Spot(b, c), c.v)) ELSE Bad(st, live)
      [] c.op = "set_candidates" -> IF FieldOf(b, c) THEN Now(st, SetCand(b, Spot(b, c), Set(c.s))) ELSE Bad(st, live)
      [] c.op = "remove_candidates" -> IF FieldOf(b, c) THEN Now(st, RemCand(b, Spot(b, c), Set(c.s))) ELSE Bad(st, live)
      [] c.op = "init_candidates" -> Now(st, InitCand(b, c.filled))
      [] c.op = "get" -> IF FieldOf(b, c) THEN Prints(st, NumItem(b.num[Spot(b, c)])) ELSE Bad(st, live)
      [] c.op = "get_candidates" -> IF FieldOf(b, c) THEN Prints(st, SetItem(b.cand[Spot(b, c)])) ELSE Bad(st, live)
      [] c.op = "encode" -> Prints(st, TextItem(Encode(b, c.rowsep, c.colsep, c.cand)))
      [] c.op = "print" -> Prints(st, ViewItem(b, PlainView(b)))
      [] c.op = "view" -> Prints(st, ViewItem(b,
            [cand |-> c.cand, sep |-> IF c.nosep THEN DefaultSep(b) ELSE c.sep,
             prefix |-> c.prefix, right |-> c.right]))
      [] c.op = "help" -> Prints(st, HelpItem(c.names))
      [] c.op = "stack" -> Prints(st, StackItem(Len(st.stack)))
      [] c.op = "clear" -> Good(st)
      [] c.op = "push" -> Good([st EXCEPT !.stack = Append(@, b)])
      [] c.op = "pop" ->
            LET i == IF c.last THEN Len(st.stack) ELSE c.i + 1 IN
            IF i \notin DOMAIN st.stack THEN Bad(st, live)
            ELSE Good([st EXCEPT !.cur = st.stack[i],
                                 !.stack = SubSeq(@, 1, i - 1) \o SubSeq(@, i + 1, Len(@))])
      [] c.op \in {"fail", "loop fail", "exit fail", "bad"} -> Bad(st, live)
      [] c.op = "loop" -> IF c.n < 1 \/ st.n > 0 THEN Bad(st, live) ELSE Good([st EXCEPT !.n = c.n])
      [] c.op = "exit" -> Good([st EXCEPT !.on = FALSE])

\* one command after all the outcomes so far
Then(outs, c, obs, live) ==
    UNION {IF o.st.dead THEN {o}
           ELSE {Outcome(x.st, o.out \o x.out, o.err + x.err) : x \in Exec(o.st, c, obs, live)} : o \in outs}
Sequence(outs, cmds, obs, live) == FoldLeft(LAMBDA acc, c : Then(acc, c, obs, live), outs, cmds)
RunLoop(st, obs, live) ==
    LET all == FoldLeft(LAMBDA acc, k : Sequence(acc, st.body, obs, live),
                        {Outcome(st, <<>>, 0)}, [k \in 1..st.n |-> k])
    IN {Outcome([o.st EXCEPT !.n = 0, !.body = <<>>], o.out, o.err) : o \in all}

\* what the shell does with a command it was given
Process(st, c, obs, live) ==
    IF st.dead \/ ~st.on THEN Good(st)
    ELSE IF c.op = "loop end" THEN IF st.n = 0 THEN Bad(st, live) ELSE RunLoop(st, obs, live)
    ELSE IF c.op \in LoopOps \cup {"exit", "exit fail", "bad"} \/ st.n = 0 THEN Exec(st, c, obs, live)
    ELSE Good([st EXCEPT !.body = Append(@, c)])
RECURSIVE ProcessAll(_, _, _, _)
ProcessAll(outs, cmds, obs, live) ==
    IF cmds = <<>> THEN outs
    ELSE ProcessAll(UNION {{Outcome(x.st, o.out \o x.out, o.err + x.err) :
                        x \in Process(o.st, Head(cmds), obs, live)} : o \in outs}, Tail(cmds), obs, live)

-----------------------------------------------------------------------------
(* Input lines: comments, indentation, continued lines, semicolons.         *)
BeforeComment(t) ==
    LET h == {i \in DOMAIN t : t[i] = "#"} IN IF h = {} THEN t ELSE SubSeq(t, 1, Min(h) - 1)
Strip(t) ==
    LET k == {i \in DOMAIN t : t[i] \notin Blank} IN
    IF k = {} THEN <<>> ELSE SubSeq(t, Min(k), Max(k))
Continued(t) == t # <<>> /\ t[Len(t)] = "\\"
\* pending text and the commands to run now, after reading a line
ReadLine(pending, line) ==
    LET t == Strip(BeforeComment(line)) IN
    IF Continued(t) THEN [pending |-> pending \o SubSeq(t, 1, Len(t) - 1), run |-> <<>>]
    ELSE LET whole == pending \o t IN
         [pending |-> <<>>,
          run |-> IF whole = <<>> THEN <<>>
                  ELSE LET q == Pieces(whole, {";"}) IN [i \in DOMAIN q |-> Strip(q[i])]]

-----------------------------------------------------------------------------
(* Does a printed text consist of these items? *)
Lines(t) ==
    LET q == Pieces(t, {"\n"}) IN
    \* a final newline ends the last line
    IF q[Len(q)] = <<>> THEN SubSeq(q, 1, Len(q) - 1) ELSE q
NumbersIn(t) ==
    LET q == NonEmpty(Pieces(t, Set(t) \ DigitSet)) IN {NumOf(q[i]) : i \in DOMAIN q}
Occurs(x, t) == \E i \in 0..(Len(t) - Len(x)) : SubSeq(t, i + 1, i + Len(x)) = x
AllText(ls) == Join(ls, <<"\n">>)
Height(item, left) ==
    CASE item.k = "text" -> Cardinality({i \in DOMAIN item.t : item.t[i] = "\n"}) + 1
      [] item.k = "view" -> item.b.w * item.b.h + item.b.w - 1
      [] item.k = "help" -> left          \* only alone
      [] OTHER -> 1
ShowsItem(item, ls) ==
    CASE item.k = "text" -> AllText(ls) = item.t
      [] item.k = "num" -> ls[1] = NumText(item.v)
      [] item.k = "cands" -> NumbersIn(ls[1]) = item.c
      [] item.k = "stack" -> NumbersIn(ls[1]) = {item.v}
      [] item.k = "help" -> \A i \in DOMAIN item.names : Occurs(item.names[i], AllText(ls))
      [] item.k = "view" -> LET fw == FieldWidth(item.b, Len(ls[1])) IN
            /\ fw >= LongestEntry(item.b, item.v)
            /\ ls = ViewLines(item.b, item.v, fw)
RECURSIVE ShowsLines(_, _)
ShowsLines(items, ls) ==
    IF items = <<>> THEN ls = <<>>
    ELSE LET k == Height(Head(items), Len(ls)) IN
         /\ k >= 1 /\ k <= Len(ls)
         /\ ShowsItem(Head(items), SubSeq(ls, 1, k))
         /\ ShowsLines(Tail(items), SubSeq(ls, k + 1, Len(ls)))
Shows(items, t) == ShowsLines(items, Lines(t))
=============================================================================
