------------------------------ MODULE GenUniverse ------------------------------
(* Writes the type universe and the representative values of each type as JSON. *)
EXTENDS Values, Json, IOUtils, SequencesExt
Which == IOEnv.UNIVERSE
Universe == CASE Which = "core" -> CoreTypes [] Which = "deep" -> DeepTypes [] Which = "core+poly" -> CoreTypes \cup PolyTypes [] Which = "poly" -> PolyTypes [] Which = "foot" -> FootTypes(QuickTypes) [] Which = "footdeep" -> FootTypes(DeepTypes) [] OTHER -> QuickTypes
Out == LET s == SetToSeq(Universe) IN [i \in 1..Len(s) |-> [ty |-> s[i], vals |-> Vals(s[i])]]
VARIABLE done
Init == done = JsonSerialize(IOEnv.OUTFILE, Out)
Next == UNCHANGED done
================================================================================
