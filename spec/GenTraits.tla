-------------------------------- MODULE GenTraits --------------------------------
(* The classes to be tried: all with few declarations, and a share of the rest. *)
EXTENDS Traits, Json, IOUtils, SequencesExt
CONSTANTS MaxDecl, Share, Seed
Chosen(S) == LET q == SetToSeq(S) IN {q[i] : i \in {j \in 1..Len(q) : j % Share = Seed % Share}}
Few == {c \in Classes : Declared(c) <= MaxDecl}
VARIABLE done
GInit == done = JsonSerialize(IOEnv.OUTFILE, [classes |-> SetToSeq(Few \cup Chosen(Classes \ Few))])
GNext == UNCHANGED done
================================================================================
