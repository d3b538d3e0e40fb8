-------------------------------- MODULE GenViews --------------------------------
(* The Kokkos types and values that are taken through the real library. *)
EXTENDS Views, Json, IOUtils
CONSTANTS Thorough, Seed
VARIABLE done

Stat == <<2, 3, 2, 1, 2, 2, 2>>
\* a view type: dynamic dimensions, static extents, element, layout, space, traits, const
T(d, s, e, l, sp, tr, c) == [kind |-> "view", dyn |-> d, stat |-> s, el |-> e, lay |-> l, space |-> sp, trait |-> tr, cons |-> c]
St(n) == SubSeq(Stat, 1, n)
Lays == {"L", "R", "S"}
ViewTypes ==
  {T(d, St(n), "i32", l, "host", "", FALSE) : <<d, n>> \in {<<0,0>>,<<1,0>>,<<0,1>>,<<2,0>>,<<1,1>>,<<0,2>>,<<3,0>>,<<2,1>>,<<1,2>>,<<0,3>>,<<4,0>>,<<2,2>>,<<5,0>>,<<6,0>>,<<7,0>>,<<4,1>>,<<5,2>>}, l \in Lays} \cup
  {T(d, <<>>, e, l, "host", "", FALSE) : d \in 0..2, e \in {"f64", "u8", "str", "cls", "vec"}, l \in Lays} \cup
  {T(3, <<>>, e, l, "host", "", FALSE) : e \in {"f64", "str"}, l \in {"L", "S"}} \cup
  {T(d, St(n), "i32", l, "host", "", TRUE) : <<d, n>> \in {<<0,0>>,<<1,0>>,<<0,1>>,<<2,0>>,<<1,1>>,<<3,0>>}, l \in Lays} \cup
  {T(1, <<>>, "str", l, "host", "", TRUE) : l \in {"R", "S"}} \cup
  {T(d, <<>>, "i32", l, "host", "atomic", FALSE) : d \in 0..3, l \in Lays} \cup
  {T(d, St(n), "i32", l, "dev", "", FALSE) : <<d, n>> \in {<<0,0>>,<<1,0>>,<<2,0>>,<<1,1>>,<<3,0>>,<<4,0>>}, l \in Lays} \cup
  {T(d, <<>>, "f64", l, "dev", "", TRUE) : d \in 0..2, l \in Lays}
DynRankTypes == {[kind |-> "rank", dyn |-> 0, stat |-> <<>>, el |-> e, lay |-> l, space |-> sp, trait |-> "", cons |-> FALSE] :
                   <<e, sp>> \in {<<"i32", "host">>, <<"f64", "host">>, <<"str", "host">>, <<"i32", "dev">>}, l \in Lays}
Others == {[kind |-> k, dyn |-> 1, stat |-> <<>>, el |-> e, lay |-> "R", space |-> "host", trait |-> "", cons |-> FALSE] :
             <<k, e>> \in {<<"dynamic", "i32">>, <<"dynamic", "f64">>, <<"dynamic", "str">>,
                           <<"map", "i32,i32">>, <<"map", "i32,f64">>, <<"map", "i16,str">>, <<"map", "u32,vec">>, <<"map", "i64,cls">>}}
Types == ViewTypes \cup DynRankTypes \cup Others

\* values
Labels == <<"", "78", "6c61626520006c">>
V(a, lb, e, s) == [alloc |-> a, label |-> lb, ext |-> e, str |-> s, ops |-> <<>>]
RECURSIVE Seqs(_, _)
Seqs(n, S) == IF n = 0 THEN {<<>>} ELSE {Append(s, x) : s \in Seqs(n - 1, S), x \in S}
ExtSet(r) == IF r <= 2 THEN 0..3 ELSE IF r = 3 THEN (IF Thorough THEN 0..3 ELSE {0, 1, 3}) ELSE IF r = 4 THEN 1..2 ELSE {2}
Odd(r) == IF r < 4 THEN {} ELSE   \* a few more shapes of the high ranks
            {[i \in 1..r |-> IF i = j THEN x ELSE IF r > 5 THEN 1 + (i % 2) ELSE 2] : j \in 1..r, x \in {0, 1, 3}}
Rev(r) == [i \in 1..r |-> r + 1 - i]
Id(r) == [i \in 1..r |-> i]
Rot(r) == [i \in 1..r |-> 1 + (i % r)]
Perms(n) == IF n <= 3 THEN {p \in [1..n -> 1..n] : \A i, j \in 1..n : i # j => p[i] # p[j]} ELSE {Id(n), Rev(n), Rot(n)}
Strides(l, e) ==
  LET r == Len(e) IN
  CASE l = "R" -> {Right(e)} \cup (IF r > 1 THEN {PadRight(e)} ELSE {})
    [] l = "L" -> {Left(e)} \cup (IF r > 1 THEN {PadLeft(e)} ELSE {})
    [] l = "S" -> {Permuted(e, p) : p \in Perms(r)} \cup {[i \in 1..r |-> 2 * Permuted(e, p)[i]] : p \in Perms(r)} \cup
                  {[i \in 1..r |-> Permuted([j \in 1..r |-> e[j] + 1], p)[i]] : p \in {Id(r), Rev(r)}}
Hash(e, s) == Sum(e) + 2 * Len(e) + Sum(s) + Seed
Lab(e, s) == Labels[1 + (Hash(e, s) % 3)]
ExtsOf(t) == IF t.kind = "rank" THEN UNION {Seqs(r, IF r <= 2 THEN 0..2 ELSE IF r = 3 THEN 1..2 ELSE {2}) \cup (IF r > 3 THEN {[i \in 1..r |-> IF i = r THEN 1 ELSE IF i = 1 THEN 3 ELSE 1 + (i % 2)]} ELSE {}) : r \in 0..7}
             ELSE {d \o t.stat : d \in Seqs(t.dyn, ExtSet(t.dyn + Len(t.stat))) \cup {x \in Odd(t.dyn) : TRUE}}
None(t) == V(FALSE, "", IF t.kind = "rank" THEN <<>> ELSE [i \in 1..t.dyn |-> 0] \o t.stat, [i \in 1..(t.dyn + Len(t.stat)) |-> 0])
ViewVals(t) == {None(t)} \cup UNION {{V(TRUE, Lab(e, s), e, s) : s \in Strides(t.lay, e)} : e \in ExtsOf(t)}
\* DynamicView: size and chunk size (in str)
DynVals == {V(TRUE, Labels[1 + ((n + c) % 3)], <<n>>, <<c>>) : n \in {0, 1, 3, 4, 5, 17, 64, 70}, c \in {1, 4, 16, 64}}
\* maps: what the user did to them: positive: key inserted, negative: erased (-1-key)
\* (key 0 is what unused slots hold; 5 and 133 meet in one slot)
MapKeys == {0, 5, 133}
MapOps == {k : k \in MapKeys} \cup {-1 - k : k \in MapKeys}
Caps == {0, 1, 200}
MapVals == {[alloc |-> TRUE, label |-> "", ext |-> <<c>>, str |-> <<>>, ops |-> o] : c \in Caps, o \in Seqs(0, MapOps) \cup Seqs(1, MapKeys) \cup Seqs(2, MapOps) \cup {<<a>> \o s : a \in MapKeys, s \in Seqs(2, MapOps)} \cup {<<0, 1, 2, 3, 4, 5, -3, -1, 133, 7, 0>>}}
Vals(t) == IF t.kind = "dynamic" THEN DynVals ELSE IF t.kind = "map" THEN MapVals ELSE ViewVals(t)

GInit == done = JsonSerialize(IOEnv.OUTFILE, [types |-> {[ty |-> t, vals |-> Vals(t)] : t \in Types}])
GNext == UNCHANGED done
================================================================================
