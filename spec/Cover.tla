-------------------------------- MODULE Cover --------------------------------
(***************************************************************************)
(* The exhaustive solver by exact cover ("Algorithm X").  There are        *)
(* requirements and choices; every choice meets some requirements.  A      *)
(* solution is a set of choices which meets every requirement exactly      *)
(* once.  vOpen maps every open requirement to the choices left for it.    *)
(* Selecting a choice closes its requirements one after the other, and     *)
(* removes the choices which compete with it; deselecting it has to bring  *)
(* everything back.  Choices may be fixed before the search starts (the    *)
(* given numbers of a puzzle): if two of them compete, there is no         *)
(* solution.  Whoever asks for the solutions can stop at any time.         *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, FiniteSetsExt, SequencesExt, TLC

CONSTANT ANY            \* any order, or always the first one (fewer states)
Pick(set) == IF ANY THEN set ELSE {Min(set)}
VARIABLES vMeets,       \* the requirements of every choice, in order
          vFixed,       \* the fixed choices, in order
          vOpen,        \* open requirements and what is left for them
          vFrames,      \* the requirements being met: what, choice, rest, closed, was
          vMode,        \* "fix", "enter", "next", "leave", "done"
          vFound,       \* the solutions yielded, in order
          vFirst        \* vOpen before the search
coverVars == <<vMeets, vFixed, vOpen, vFrames, vMode, vFound, vFirst>>

Needs(meets, c) == Range(meets[c])
Requirements(meets) == UNION {Needs(meets, c) : c \in DOMAIN meets}
IsCover(meets, set, all) ==
    /\ UNION {Needs(meets, c) : c \in set} = all
    /\ \A c, d \in set : c # d => Needs(meets, c) \cap Needs(meets, d) = {}
Everything(meets, all) ==
    [q \in all |-> {c \in DOMAIN meets : q \in Needs(meets, c)}]

\* close the requirements of a choice, one after the other; the closed ones
\* are kept in the order in which they were closed
RECURSIVE Closing(_, _, _, _)
Closing(meets, open, qs, kept) ==
    IF qs = <<>> THEN [open |-> open, kept |-> kept]
    ELSE LET q == Head(qs)
             rivals == open[q]
             rest == [z \in DOMAIN open \ {q} |->
                         {c \in open[z] : ~(c \in rivals)}]
         IN Closing(meets, rest, Tail(qs), Append(kept, rivals))
Close(meets, open, c) == Closing(meets, open, meets[c], <<>>)

\* open them again, the last one first
RECURSIVE Opening(_, _, _, _)
Opening(meets, open, qs, kept) ==
    IF qs = <<>> THEN open
    ELSE LET q == Last(qs)
             rivals == Last(kept)
             more == [z \in DOMAIN open \cup {q} |->
                         IF z = q THEN rivals
                         ELSE open[z] \cup {c \in rivals : z \in Needs(meets, c)}]
         IN Opening(meets, more, Front(qs), Front(kept))
Open(meets, open, c, kept) == Opening(meets, open, meets[c], kept)

CanSelect(meets, open, c) == Needs(meets, c) \subseteq DOMAIN open

CoverInit(meets, all, fixed) ==
    /\ vMeets = meets /\ vFixed = fixed
    /\ vOpen = Everything(meets, all) /\ vFirst = Everything(meets, all)
    /\ vFrames = <<>> /\ vMode = "fix" /\ vFound = <<>>

Fix == /\ vMode = "fix"
       /\ IF vFixed = <<>>
          THEN vMode' = "enter" /\ vFirst' = vOpen /\ UNCHANGED <<vFixed, vOpen>>
          ELSE IF ~CanSelect(vMeets, vOpen, Head(vFixed))
               THEN vMode' = "done" /\ UNCHANGED <<vFixed, vOpen, vFirst>>
               ELSE /\ vOpen' = Close(vMeets, vOpen, Head(vFixed)).open
                    /\ vFixed' = Tail(vFixed)
                    /\ UNCHANGED <<vMode, vFirst>>
       /\ UNCHANGED <<vMeets, vFrames, vFound>>

Path == {vFrames[i].choice : i \in DOMAIN vFrames}
Enter == /\ vMode = "enter"
         /\ IF DOMAIN vOpen = {}
            THEN /\ vFound' = Append(vFound, Path)
                 /\ vMode' = "leave"
                 /\ UNCHANGED vFrames
            ELSE \* any requirement with the fewest choices
                 LET least == Min({Cardinality(vOpen[q]) : q \in DOMAIN vOpen})
                 IN \E q \in Pick({z \in DOMAIN vOpen : Cardinality(vOpen[z]) = least}) :
                    /\ vFrames' = Append(vFrames, [what |-> q, choice |-> 0,
                                    rest |-> vOpen[q], kept |-> <<>>, was |-> vOpen])
                    /\ vMode' = "next"
                    /\ UNCHANGED vFound
         /\ UNCHANGED <<vMeets, vFixed, vOpen, vFirst>>
Top == Last(vFrames)
NextChoice ==
    /\ vMode = "next"
    /\ IF Top.rest = {}
       THEN vFrames' = Front(vFrames) /\ vMode' = "leave" /\ UNCHANGED vOpen
       ELSE \E c \in Pick(Top.rest) :
            LET x == Close(vMeets, vOpen, c) IN
            /\ vOpen' = x.open
            /\ vFrames' = Append(Front(vFrames), [Top EXCEPT !.choice = c,
                              !.rest = @ \ {c}, !.kept = x.kept])
            /\ vMode' = "enter"
    /\ UNCHANGED <<vMeets, vFixed, vFound, vFirst>>
Leave ==
    /\ vMode = "leave"
    /\ IF vFrames = <<>>
       THEN vMode' = "done" /\ UNCHANGED <<vOpen, vFrames>>
       ELSE /\ vOpen' = Open(vMeets, vOpen, Top.choice, Top.kept)
            /\ vFrames' = Append(Front(vFrames), [Top EXCEPT !.choice = 0, !.kept = <<>>])
            /\ vMode' = "next"
    /\ UNCHANGED <<vMeets, vFixed, vFound, vFirst>>
CoverNext == Fix \/ Enter \/ NextChoice \/ Leave

-----------------------------------------------------------------------------
\* what is left for open requirements are the choices which compete with none
\* of the selected ones (this is why nothing removed is missed or removed twice)
Live == \A q \in DOMAIN vOpen : \A c \in vOpen[q] :
            \A z \in Needs(vMeets, c) : z \in DOMAIN vOpen /\ c \in vOpen[z]
\* after a choice has been tried, everything is as it was before
Restored == (vMode = "next" /\ vFrames # <<>>) => vOpen = Top.was
AllBack == (vMode \in {"leave", "done"} /\ vFrames = <<>> /\ vFixed = <<>>) => vOpen = vFirst
NothingTwice == \A i, j \in DOMAIN vFound : i # j => vFound[i] # vFound[j]
=============================================================================
