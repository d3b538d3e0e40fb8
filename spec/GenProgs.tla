-------------------------------- MODULE GenProgs --------------------------------
(* All programs over the fields of Asym up to a length, as JSON. *)
EXTENDS Asym, Json, IOUtils, SequencesExt
CONSTANT MaxLen
RECURSIVE Progs(_)
Progs(k) == IF k = 0 THEN {<<>>} ELSE Progs(k - 1) \cup {Append(p, l) : p \in Progs(k - 1), l \in DOMAIN Data}
GInit == Init /\ ec = JsonSerialize(IOEnv.OUTFILE, SetToSeq(Progs(MaxLen)))
GNext == UNCHANGED vars
================================================================================
