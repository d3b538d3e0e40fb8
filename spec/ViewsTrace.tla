------------------------------- MODULE ViewsTrace -------------------------------
(* Accepts what the real library does with one Kokkos object: one event per step.
     made     the object, as the case describes it          size     the size reported
     write    bytes written through a transport             kept     the source afterwards
     read     a new object from a transport                 into     an old object, read over
     apart    the source after the restored object changed  again    restored twice
     extent / contents / equal: the library's helpers for views
     left     allocations and objects alive after the case, less those alive before *)
EXTENDS Views, Json, IOUtils
Cases == ndJsonDeserialize(IOEnv.TRACEFILE)
VARIABLES case, l, src, size, old
C == Cases[case]
E == C.ev[l + 1]
Lay == C.lay
Nothing == [k |-> "none"]
MapAfter(ops) ==
  LET RECURSIVE M(_, _)
      M(S, o) == IF o = <<>> THEN S ELSE M(IF Head(o) >= 0 THEN S \cup {Head(o)} ELSE S \ {-1 - Head(o)}, Tail(o))
  IN  M({}, ops)
\* the driver built what the case says
AsDescribed(v, d) ==
  CASE C.kind \in {"view", "rank"} -> /\ d.k = "view" /\ d.label = v.label /\ d.ext = v.ext /\ d.alloc = v.alloc
                                      /\ v.alloc => d.str = v.str /\ Len(d.el) = Prod(v.ext)
                                      /\ v.alloc /\ Prod(v.ext) < 200 => Cardinality({d.el[i] : i \in 1..Len(d.el)}) = Len(d.el)
    [] C.kind = "dynamic" -> d.k = "dyn" /\ d.label = v.label /\ d.ext = v.ext /\ d.cap = v.str[1] /\ Len(d.el) = v.ext[1]
    [] C.kind = "map" -> d.k = "map" /\ {d.parts[i].label : i \in 1..Len(d.parts)} = {ToString(x) : x \in MapAfter(v.ops)} /\ Len(d.parts) = Cardinality(MapAfter(v.ops))
    [] C.kind = "fixed" -> TRUE
Script == C.script
Step ==
  /\ l < Len(Script) /\ E.e = Script[l + 1]
  /\ CASE E.e = "made"  -> /\ AsDescribed(C.v, E.d) /\ src' = E.d /\ UNCHANGED <<size, old>>
       [] E.e = "size"  -> /\ size' = E.n /\ UNCHANGED <<src, old>>
       [] E.e = "write" -> /\ E.n = size /\ UNCHANGED <<src, size, old>>
       [] E.e \in {"kept", "apart"} -> /\ E.d = src /\ UNCHANGED <<src, size, old>>
       [] E.e \in {"read", "again"} -> /\ Restored(Lay, src, E.d) /\ UNCHANGED <<src, size, old>>
       [] E.e = "left"  -> /\ E.n = 0 /\ UNCHANGED <<src, size, old>>
       [] E.e = "old"   -> /\ AsDescribed(C.p, E.d) /\ old' = E.d /\ UNCHANGED <<src, size>>
       [] E.e = "into"  -> /\ Restored(Lay, src, E.d) /\ UNCHANGED <<src, size, old>>
       [] E.e = "extent" -> /\ ExtentsOf(E.label, src, E.d) /\ UNCHANGED <<src, size, old>>
       [] E.e = "contents" -> /\ ContentsOf(src, E.b, E.d) /\ UNCHANGED <<src, size, old>>
       [] E.e = "equal" -> /\ \A i \in 1..Len(E.with) : (E.with[i].r <=> Equal(src, E.with[i].d)) /\ UNCHANGED <<src, size, old>>
TraceInit == case \in 1..Len(Cases) /\ l = 0 /\ src = Nothing /\ size = -1 /\ old = Nothing
TraceNext == \/ l < Len(C.ev) /\ Step /\ l' = l + 1 /\ case' = case
             \/ l = Len(C.ev) /\ l = Len(Script) /\ UNCHANGED <<case, l, src, size, old>>
View == <<case, l>>
================================================================================
