---------------------------------- MODULE Views ----------------------------------
(* Kokkos objects as the user sees them (C19), and what restoring one means.

   An object is a record [k, label, ext, str, alloc, el, parts, cap]:
     "view"  a View or DynRankView: label, extents (one per dimension), strides, whether it
             owns an allocation, and its elements in the order of their indices (the last
             index runs fastest), whatever the order in memory is
     "dyn"   a DynamicView: ext = <<size>>, cap = chunk size
     "map"   an UnorderedMap: parts = pairs in any order, cap = capacity
     "tup"   anything whose parts are simply restored one by one (pair, complex, Array, graph,
             matrix, classes and containers around views): el and parts
   Its type says which layout it has: "L", "R" (strides follow from extents unless it is a
   window of a larger view) or "S" (strides belong to the value). *)
EXTENDS Naturals, Integers, Sequences, FiniteSets, TLC

RECURSIVE Prod(_), Sum(_)
Prod(s) == IF s = <<>> THEN 1 ELSE Head(s) * Prod(Tail(s))
Sum(s)  == IF s = <<>> THEN 0 ELSE Head(s) + Sum(Tail(s))
Max(a, b) == IF a > b THEN a ELSE b

\* memory: strides, span, the offset of an index, the indices in order
Right(ext) == [i \in 1..Len(ext) |-> Prod(SubSeq(ext, i + 1, Len(ext)))]
Left(ext)  == [i \in 1..Len(ext) |-> Prod(SubSeq(ext, 1, i - 1))]
\* windows of larger views, as far as the layouts can express them
PadRight(ext) == [i \in 1..Len(ext) |-> IF i = 1 THEN Prod(Tail(ext)) + 1 ELSE Prod(SubSeq(ext, i + 1, Len(ext)))]
PadLeft(ext)  == [i \in 1..Len(ext) |-> IF i = 1 THEN 1 ELSE (ext[1] + 1) * Prod(SubSeq(ext, 2, i - 1))]
Permuted(ext, p) ==     \* p[1] is the dimension that runs fastest
  [i \in 1..Len(ext) |-> LET at == CHOOSE j \in 1..Len(p) : p[j] = i
                         IN  Prod([j \in 1..(at - 1) |-> ext[p[j]]])]
Span(ext, str) == IF Prod(ext) = 0 THEN 0 ELSE 1 + Sum([i \in 1..Len(ext) |-> (ext[i] - 1) * str[i]])
Contiguous(ext, str) == Span(ext, str) = Prod(ext)
\* the index (0-based) of the n-th element (1-based)
Index(ext, n) == [i \in 1..Len(ext) |-> ((n - 1) \div Prod(SubSeq(ext, i + 1, Len(ext)))) % ext[i]]
Offset(ext, str, n) == LET x == Index(ext, n) IN Sum([i \in 1..Len(ext) |-> x[i] * str[i]])

RECURSIVE SameBag(_, _), Restored(_, _, _)
SameBag(a, b) ==
  IF a = <<>> THEN b = <<>>
  ELSE \E i \in 1..Len(b) : b[i] = a[1] /\ SameBag(Tail(a), SubSeq(b, 1, i - 1) \o SubSeq(b, i + 1, Len(b)))

\* r is what o was restored to; lay: "S" if strides belong to the value
Restored(lay, o, r) ==
  /\ o.k = r.k /\ o.label = r.label
  /\ CASE o.k = "view" -> /\ o.ext = r.ext
                          /\ lay = "S" /\ o.alloc => o.str = r.str
                          /\ o.alloc => r.alloc /\ o.el = r.el /\ Len(r.el) = Prod(r.ext)
       [] o.k = "dyn"  -> o.ext = r.ext /\ o.cap = r.cap /\ o.el = r.el
       [] o.k = "map"  -> r.cap >= o.cap /\ Len(r.parts) = Len(o.parts) /\ SameBag(o.parts, r.parts)
       [] o.k = "tup"  -> /\ o.el = r.el /\ Len(o.parts) = Len(r.parts)
                          /\ \A i \in 1..Len(o.parts) : Restored(lay, o.parts[i], r.parts[i])

\* only the extents travel; label comes from the caller
ExtentsOf(label, o, r) == r.k = "view" /\ r.label = label /\ r.ext = o.ext /\ r.alloc
\* only the elements travel, into the target's own allocation
ContentsOf(o, before, r) == r.k = "view" /\ r.label = before.label /\ r.ext = before.ext /\ r.el = o.el

\* the library's comparison of two views of one type
Equal(a, b) == /\ a.ext = b.ext /\ a.label = b.label
               /\ Span(a.ext, a.str) = Span(b.ext, b.str) /\ a.el = b.el
================================================================================
