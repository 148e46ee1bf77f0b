--------------------------------- MODULE Log ---------------------------------
(* A log of observed behaviour: each line is the record of one run of the    *)
(* code.                                                                     *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, IOUtils
LogLines == TLCEval(ndJsonDeserialize(IOEnv.LOG))
\* The sizes come from a file of their own: TLC evaluates them often before
\* it has set up its constants.
LogHead == JsonDeserialize(IOEnv.LOGSIZES)
LogSizes == {<<LogHead[i][1], LogHead[i][2]>> : i \in DOMAIN LogHead}
Reject(i, clause) == PrintT("REJECT|" \o ToString(i) \o "|" \o clause)
RejectAll(i, clauses) == \A c \in clauses : Reject(i, c)
Judged(i) == PrintT("JUDGED|" \o ToString(i))
\* the names in a set of pairs <<name, holds>> which do not hold
Failing(pairs) == {x[1] : x \in {y \in pairs : ~y[2]}}
=============================================================================
