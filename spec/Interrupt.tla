------------------------------ MODULE Interrupt ------------------------------
(***************************************************************************)
(* The user interrupts the command shell (Ctrl-C).                          *)
(*                                                                         *)
(* While it waits for input, an interactive shell forgets what was typed of *)
(* a continued line and goes on; any other shell ends with status 2.        *)
(* While commands are run, the rest of the line (or of the loop) is dropped.*)
(* The commands before the interrupted one have taken effect, the           *)
(* interrupted one has taken effect, or none, or (initialising candidates,  *)
(* the only command working on field after field) part of it.  The loop     *)
(* being run is gone, and nothing of the line stays behind.                 *)
(***************************************************************************)
EXTENDS Shell

\* what the interrupted command may have made of the board
Partly(old, c, now) ==
    CASE c.op \in {"set", "set_candidates", "remove_candidates"} ->
            FieldOf(old, c) /\
            LET p == Spot(old, c)
                new == CASE c.op = "set" -> SetNum(old, p, c.v)
                         [] c.op = "set_candidates" -> SetCand(old, p, Set(c.s))
                         [] OTHER -> RemCand(old, p, Set(c.s))
            IN /\ now \in {old, new}
                  \/ /\ c.op = "remove_candidates"
                     /\ \E s \in SUBSET Set(c.s) : now = RemCand(old, p, s)
      [] c.op = "init_candidates" ->
            /\ now.w = old.w /\ now.h = old.h /\ now.num = old.num
            /\ LET new == InitCand(old, c.filled) IN
               \A p \in DOMAIN old.cand : now.cand[p] \in {old.cand[p], new.cand[p]}
      [] OTHER -> FALSE
\* a result which may have been written before the interrupt
Shown(st, c) ==
    IF c.op \in {"get", "get_candidates", "encode", "print", "view", "help", "stack"}
    THEN {o.out : o \in {x \in Exec(st, c, [on |-> FALSE], TRUE) : x.err = 0}} ELSE {}
EmptyLine == TextItem(<<>>)
\* an interrupt while command c runs in state st
During(st, c, obs) ==
    LET gone(x) == [x EXCEPT !.n = 0, !.body = <<>>] IN
    {Outcome(gone(st), <<EmptyLine>>, 0)}
    \cup {Outcome(gone(st), s, 0) : s \in Shown(st, c)}
    \cup {Outcome(gone(st), s \o <<EmptyLine>>, 0) : s \in Shown(st, c)}
    \cup (IF obs.on /\ Partly(st.cur, c, obs.b)
          THEN {Outcome(gone([st EXCEPT !.cur = obs.b]), <<EmptyLine>>, 0)} ELSE {})
After(outs, more) ==
    UNION {{Outcome(y.st, o.out \o y.out, o.err + y.err) : y \in more[o]} : o \in outs}
\* commands run one after another until one of them is interrupted
RECURSIVE Broken(_, _, _, _)
Broken(outs, cmds, obs, live) ==
    IF cmds = <<>> \/ outs = {} THEN {}
    ELSE LET live_outs == {o \in outs : ~o.st.dead} IN
         After(live_outs, [o \in live_outs |-> During(o.st, Head(cmds), obs)])
         \cup Broken(Then(live_outs, Head(cmds), obs, live), Tail(cmds), obs, live)
Unroll(body, k) == FoldLeft(LAMBDA acc, x : acc \o body, <<>>, [j \in 1..k |-> j])
\* a line of commands
RECURSIVE Interrupted(_, _, _, _)
Interrupted(outs, cmds, obs, live) ==
    IF cmds = <<>> THEN {}
    ELSE LET c == Head(cmds)
             going == {o \in outs : ~o.st.dead /\ o.st.on}
             \* a loop being defined only collects
             here(o) == IF c.op = "loop end"
                        THEN IF o.st.n = 0 THEN {}
                             ELSE Broken({Outcome(o.st, <<>>, 0)}, Unroll(o.st.body, o.st.n), obs, live)
                        ELSE IF o.st.n > 0 \/ c.op \in {"loop", "loop fail", "exit", "bad"} THEN {}
                        ELSE During(o.st, c, obs)
             next == UNION {{Outcome(x.st, o.out \o x.out, o.err + x.err) :
                        x \in Process(o.st, c, obs, live)} : o \in going}
         IN After(going, [o \in going |-> here(o)])
            \cup Interrupted(next, Tail(cmds), obs, live)
\* a shell which is not interactive has been stopped
Stopped(outs, live) == {Outcome([o.st EXCEPT !.dead = ~live], o.out, o.err) : o \in outs}
\* waiting for input: what is printed is not laid down
Waiting(st, live) == [st EXCEPT !.dead = ~live]
=============================================================================
