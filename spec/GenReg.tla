--------------------------------- MODULE GenReg ---------------------------------
(* All link orders of the units and all histories of first uses of a given length, as JSON.
   A use: <<"p", hierarchy, transport, writing unit, reading unit>>, <<"x", type, writing
   unit, reading unit>>, <<"t", traversal, hierarchy, unit>>; what each unit knows is in TABLEFILE. *)
EXTENDS Naturals, Sequences, Json, IOUtils, SequencesExt, TLC
CONSTANT MaxLen
Table == JsonDeserialize(IOEnv.TABLEFILE)
Units == 1..Len(Table.units)
In(s, x) == \E i \in 1..Len(s) : s[i] = x
PolyUses == {<<"p", h, m, a - 1, b - 1>> : h \in {"A", "B", "C"}, m \in {"m", "u", "s", "f"}, a \in Units, b \in Units}
CanPoly(u) == In(Table.units[u[4] + 1].modes, u[3]) /\ In(Table.units[u[5] + 1].modes, IF u[3] = "u" THEN "m" ELSE u[3])
TravUses == {<<"t", ToString(j), h, a - 1>> : j \in 0..2, h \in {"A", "B", "C"}, a \in Units}
CanTrav(u) == In(Table.units[u[4] + 1].travs, u[2])
Uses == {u \in PolyUses : CanPoly(u)} \cup {u \in TravUses : CanTrav(u)}
RECURSIVE Hist(_)
Hist(k) == IF k = 0 THEN {<<>>} ELSE {Append(p, l) : p \in Hist(k - 1), l \in Uses}
Orders == {p \in [1..Len(Table.units) -> Units] : \A i, j \in Units : i # j => p[i] # p[j]}
VARIABLE done
GInit == done = JsonSerialize(IOEnv.OUTFILE, [orders |-> SetToSeq(Orders), hist |-> SetToSeq(Hist(MaxLen))])
GNext == UNCHANGED done
================================================================================
