------------------------------- MODULE Footprint -------------------------------
(* C15: the memory footprint of an object as a function of its type and value, and the
   state machine of objects being made and footprinted.
   TYPEFILE gives, for every type of the universe and every type it is composed of, its
   term and sizeof as the compiler lays it out: [name -> [ty, size, args: names]]. *)
EXTENDS Values, Json, IOUtils
Table == JsonDeserialize(IOEnv.TYPEFILE)
Ids   == JsonDeserialize(IOEnv.IDFILE)       \* sequence: type id -> name

Sz(n) == Table[n].size
RECURSIVE F(_, _), Sum(_, _, _)
Sum(names, vs, i) == IF i > Len(vs) THEN 0 ELSE F(names[IF i <= Len(names) THEN i ELSE Len(names)], vs[i]) + Sum(names, vs, i + 1)
F(n, v) ==
  LET T == Table[n]  c == T.ty.c  A == T.args
      \* a container of elements of the one argument type
      Elems == Sum(A, v.k, 1)
  IN
  CASE c \in Leaves \ {"str"} -> T.size
    [] c \in {"opaq", "func"} -> T.size                          \* opaque
    [] c \in {"atom", "thr", "file", "vptr"} -> T.inner            \* a class with one opaque part
    [] c = "str" -> T.size + v.n                                  \* v.n: capacity
    [] c \in {"vec", "vecA"} -> T.size + Elems + Sz(A[1]) * (v.n - Len(v.k))
    [] c \in {"list", "deque", "set", "setG", "mset", "uset", "umset"} -> T.size + Elems
    [] c \in {"map", "mapG", "mmap", "umap", "ummap"} ->
         T.size + LET RECURSIVE M(_) M(i) == IF i > Len(v.k) THEN 0 ELSE Sz(A[3]) + F(A[1], v.k[i].k[1]) + F(A[2], v.k[i].k[2]) + M(i + 1) IN M(1)
    [] c \in {"queue", "stack", "pq"} -> T.size + Len(v.k) * Sz(A[1])
    [] c = "pair" -> T.size + F(A[1], v.k[1]) + F(A[2], v.k[2])
    [] c = "opt" -> T.size + Len(v.k) * Sz(A[1])
    [] c \in {"ptr", "ptrD", "shp"} -> T.size + (IF v.k = <<>> THEN 0 ELSE F(A[1], v.k[1]))
    [] c = "raw" -> Sz("void*") + (IF v.k[1].k = <<>> THEN 0 ELSE F(A[1], v.k[1].k[1]))
    [] c \in {"RPtr", "SPtr"} -> 1 + (IF v.k[1].k = <<>> THEN 0 ELSE F(A[1], v.k[1].k[1]))   \* a flag and the pointee
    [] c \in {"arr0", "arr1", "arr3", "arr17", "CArr", "Box", "NiBox", "TBox", "RBox", "RnBox"} -> Elems
    [] c \in {"tup0", "tup1", "tup2", "tup3", "tup5", "Rec"} -> IF v.k = <<>> THEN 0 ELSE Sum(A, v.k, 1)
    [] c = "Tree" -> LET q == v.k[2] IN F(A[1], v.k[1]) + Sz("vec<i16>") + Sz(n) * (q.n - Len(q.k)) + Sum(<<n>>, q.k, 1)
    [] c = "Link" -> F(A[1], v.k[1]) + Sz("ptr") + Sum(<<n>>, v.k[2].k, 1)
    [] c = "Der" -> F(A[1], v.k[1]) + F(A[2], v.k[2]) + 2
    [] c = "Poly" -> Sz("ptr") + (IF v.k[1].k = <<>> THEN 0 ELSE
         LET m == v.k[1].k[1].k IN 4 + (IF Len(m) > 1 THEN Sz("str") + m[2].n ELSE 0) + (IF Len(m) > 2 THEN Sz("vec<i16>") + 2 * m[3].n ELSE 0))

Reported(n, v, off) == off + (IF F(n, v) > Sz(n) THEN F(n, v) ELSE Sz(n))

VARIABLES obj
Init == obj = [x \in {} |-> 0]
Make(s, n, v) == obj' = (s :> [ty |-> n, val |-> v]) @@ obj
Ask(s, off, result) == s \in DOMAIN obj /\ result = Reported(obj[s].ty, obj[s].val, off) /\ UNCHANGED obj
================================================================================
