------------------------------- MODULE MCGrid -------------------------------
(* The geometry facts for every box shape up to MAXW x MAXH. *)
EXTENDS Grid
CONSTANTS MAXW, MAXH
MCSizes == {<<1, 1>>}
VARIABLES vShape, vReady
Init == vShape \in (1..MAXW) \X (1..MAXH) /\ vReady = FALSE
Next == ~vReady /\ vReady' = TRUE /\ UNCHANGED vShape
Geometry == vReady => GeometryOk(vShape[1], vShape[2])
=============================================================================
